package run

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func mapSlots(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	b, err := syscall.Mmap(int(f.Fd()), 0, slotSize*maxWorkers, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return b
}

// Supervise runs a worker process and attributes its crash or hang to a case.
func Supervise(id, root string) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	slot := filepath.Join(dir, "slots")
	if err := os.WriteFile(slot, nil, 0o600); err == nil {
		err = os.Truncate(slot, slotSize*maxWorkers)
	}
	worker := func(env ...string) (tail *tailWriter, err error) {
		cmd := exec.Command(os.Args[0], "worker", id, slot)
		cmd.Env = append(os.Environ(), env...)
		cmd.Stdout = os.Stdout
		tail = &tailWriter{}
		cmd.Stderr = tail
		return tail, cmd.Run()
	}
	status := func(tail *tailWriter, err error) int {
		var ee *exec.ExitError
		switch {
		case err == nil:
			return 0
		case errors.As(err, &ee) && ee.ExitCode() == 1:
			os.Stderr.Write(tail.buf)
			return 1
		}
		fmt.Printf("worker ended: %v\n%s\n", err, clipTail(string(tail.buf)))
		return 2
	}
	if code := status(worker()); code != 2 {
		return code
	}
	b, _ := os.ReadFile(slot)
	n := 0
	for i := 0; i < maxWorkers && len(b) == slotSize*maxWorkers; i++ {
		s := b[i*slotSize:]
		l := int(s[0]) | int(s[1])<<8 | int(s[2])<<16
		c := string(s[8 : 8+l])
		if l == 0 && i > 0 {
			continue
		}
		what := ""
		for try := 0; try < 2; try++ {
			what = one(id, root, c)
			if what == "" {
				break
			}
		}
		if what != "" {
			printViolation(root, id, n, Violation{c, what})
			n++
		}
	}
	if n == 0 {
		// No case fails alone: calls may not get along with each other (which C10 decides), so one at a time.
		rest := min(270*time.Second, 840*time.Second-time.Since(start))
		return status(worker("MC_WORKERS=1", "MC_DEADLINE="+rest.String()))
	}
	WriteEvidence(root, id, map[string]any{"property": id, "tier": tier(), "seed": 1, "level": "model_checking",
		"coverage": map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": n, "samples": []any{}, "exhaustive": false},
		"wall_s":   time.Since(start).Seconds(), "violations": n})
	return 1
}

func tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

// one runs a case in a process of its own; "" if it does not fail.
func one(id, root, c string) string {
	f, err := os.CreateTemp("", "mc-case-")
	if err != nil {
		return ""
	}
	defer os.Remove(f.Name())
	f.WriteString(c)
	f.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 90*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "one", id, f.Name())
	tail := &tailWriter{}
	cmd.Stdout, cmd.Stderr = tail, tail
	err = cmd.Run()
	if ctx.Err() != nil {
		return "does not return within 90 s"
	}
	if err == nil {
		return ""
	}
	return fmt.Sprintf("%v\n%s", err, clipTail(string(tail.buf)))
}

func (x *X) confirm(c string) bool { return one(x.Check.ID, x.Root, c) != "" }

// One runs one case; exit status 0 or 1.
func One(c *Check, root, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	text := string(b)
	var rep struct {
		B64 string `json:"case_b64"`
	}
	if strings.HasSuffix(file, ".json") && json.Unmarshal(b, &rep) == nil {
		raw, _ := base64.StdEncoding.DecodeString(rep.B64)
		text = string(raw)
	}
	lim := syscall.Rlimit{Cur: 12 << 30, Max: 12 << 30}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	x := newX(c, root, make([]byte, slotSize*maxWorkers))
	err = x.ws[0].exec(text)
	var k Quiet
	if err == nil || errors.As(err, &k) {
		fmt.Printf("case %q: ok %v\n", clip(text), err)
		return 0
	}
	fmt.Printf("case %q: %v\n", clip(text), err)
	return 1
}

// Property of a replay file.
func PropertyOf(file string) string {
	b, _ := os.ReadFile(file)
	var rep struct {
		Property string `json:"property"`
	}
	_ = json.Unmarshal(b, &rep)
	return rep.Property
}

type tailWriter struct{ buf []byte }

func (t *tailWriter) Write(p []byte) (int, error) {
	t.buf = append(t.buf, p...)
	if len(t.buf) > 1<<16 {
		t.buf = append(t.buf[:1<<12:1<<12], t.buf[len(t.buf)-1<<14:]...)
	}
	return len(p), nil
}

func clipTail(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}
