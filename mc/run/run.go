// Package run explores cases with workers and reports what it covered and found.
package run

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/maphash"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID string
	// Explore enumerates the space; it passes every case to a worker's Run.
	Explore func(x *X)
	// Case runs one case on the implementation and returns what is wrong.
	// It counts what it does in w.
	Case func(w *W, c string) error
	// Assumptions are listed in the evidence.
	Assumptions []string
	// HangAfter is how long one case may take before it is taken to hang.
	HangAfter time.Duration
}

// Quiet marks a known finding: listed, printed, not a violation.
type Quiet struct{ Key, What string }

func (k Quiet) Error() string { return "known finding " + k.Key + ": " + k.What }

// X is one exploration.
type X struct {
	Check    *Check
	Thorough bool
	Root     string // /verif
	deadline time.Time
	stop     atomic.Bool
	late     atomic.Bool
	slots    []byte
	workers  int

	mu         sync.Mutex
	states     int64
	trans      int64
	traces     int64
	families   map[string]int64
	samples    map[string][]string
	violations []Violation
	known      map[string]Quiet
	knownCount map[string]int64
	listed     map[string]string
	ws         []*W
	hash       maphash.Seed
	reached    [64]shard
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

// Violation is a confirmed difference.
type Violation struct {
	Case string `json:"case"`
	What string `json:"what"`
}

// W is a worker; its counters are its own.
type W struct {
	X      *X
	ID     int
	slot   []byte
	since  atomic.Int64
	states int64
	trans  int64
	traces int64
	family string
	fam    map[string]int64
	kc     map[string]int64
	Local  map[string]any // per-worker resources of a check (connections and the like)
	quiet  bool
}

const slotSize = 1 << 20
const maxWorkers = 16

// State counts an explored state of the model.
func (w *W) State(n int) { w.states += int64(n) }

// Distinct counts a state of the model if it was not reached before.
func (w *W) Distinct(key string) {
	h := maphash.String(w.X.hash, key)
	s := &w.X.reached[h&63]
	s.mu.Lock()
	_, old := s.m[h]
	if !old {
		s.m[h] = struct{}{}
	}
	s.mu.Unlock()
	if !old {
		w.states++
	}
}

// Trans counts model transitions executed.
func (w *W) Trans(n int) { w.trans += int64(n) }

// Traces counts further executions of the implementation within the case.
func (w *W) Traces(n int) { w.traces += int64(n) }

// Partial tells that not all of the space is explored.
func (x *X) Partial(why string) {
	if !x.late.Swap(true) {
		fmt.Printf("not complete: %s\n", why)
	}
}

// Family names what is being explored, for the evidence.
func (w *W) Family(f string) { w.family = f }

// Stop tells that exploration should end (deadline or enough violations).
func (w *W) Stop() bool { return w.X.stop.Load() }

// Known returns a known-finding error if key is listed for this property, else a plain error.
func (w *W) Known(key, what string) error {
	if _, ok := w.X.listed[key]; ok {
		return Quiet{key, what}
	}
	return errors.New(what)
}

// Run runs one case.
func (w *W) Run(c string) {
	if w.X.stop.Load() {
		return
	}
	w.put(c)
	err := w.exec(c)
	w.since.Store(0)
	w.traces++
	w.fam[w.family]++
	if w.fam[w.family] <= 2 {
		w.X.sample(w.family, c)
	}
	if err == nil {
		return
	}
	var k Quiet
	if errors.As(err, &k) {
		w.kc[k.Key]++
		w.X.mu.Lock()
		if _, ok := w.X.known[k.Key]; !ok {
			w.X.known[k.Key] = k
		}
		w.X.mu.Unlock()
		return
	}
	// Once more, to be sure it is not an accident of this run.
	w.since.Store(time.Now().UnixNano())
	err2 := w.exec(c)
	w.since.Store(0)
	if err2 == nil || errors.As(err2, &k) {
		// The confirming call may itself have changed shared state: a fresh process decides.
		if !w.X.confirm(c) {
			fmt.Fprintf(os.Stderr, "not reproducible, ignored: %q: %v\n", clip(c), err)
			return
		}
	}
	w.X.report(c, err)
}

func (w *W) put(c string) {
	n := len(c)
	if n > slotSize-8 {
		n = slotSize - 8
	}
	for i := 0; i < 4; i++ {
		w.slot[i] = byte(n >> (8 * i))
	}
	copy(w.slot[8:], c[:n])
	w.since.Store(time.Now().UnixNano())
}

func (w *W) exec(c string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			err = fmt.Errorf("panic: %v\n%s", r, st)
		}
	}()
	return w.X.Check.Case(w, c)
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func (x *X) sample(f, c string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	if len(x.samples[f]) < 2 {
		x.samples[f] = append(x.samples[f], clip(c))
	}
}

func (x *X) report(c string, err error) {
	x.mu.Lock()
	defer x.mu.Unlock()
	x.violations = append(x.violations, Violation{c, err.Error()})
	if len(x.violations) >= 3 {
		x.stop.Store(true)
	}
}

// Tasks runs f for every item on the workers. Items are taken in order.
func Tasks[T any](x *X, items []T, f func(w *W, item T)) {
	var next atomic.Int64
	x.Parallel(func(w *W) {
		for {
			i := int(next.Add(1)) - 1
			if i >= len(items) || x.stop.Load() {
				return
			}
			f(w, items[i])
		}
	})
}

// Parallel runs f once on every worker.
func (x *X) Parallel(f func(w *W)) {
	var wg sync.WaitGroup
	for _, w := range x.ws {
		wg.Add(1)
		go func(w *W) {
			defer wg.Done()
			f(w)
		}(w)
	}
	wg.Wait()
}

// Each generates the cases of a family one after the other and spreads them over the workers.
func (x *X) Each(family string, gen func(yield func(c string) bool)) {
	ch := make(chan []string, 64)
	go func() {
		defer close(ch)
		var batch []string
		gen(func(c string) bool {
			batch = append(batch, c)
			if len(batch) == 64 {
				ch <- batch
				batch = nil
			}
			return !x.stop.Load()
		})
		if len(batch) > 0 {
			ch <- batch
		}
	}()
	x.Parallel(func(w *W) {
		w.Family(family)
		for b := range ch {
			for _, c := range b {
				w.Run(c)
			}
		}
	})
}

// Bound is the tier-dependent bound.
func (x *X) Bound(quick, thorough int) int {
	if x.Thorough {
		return thorough
	}
	return quick
}

func newX(c *Check, root string, slots []byte) *X {
	x := &X{Check: c, Root: root, Thorough: os.Getenv("VERIF_TIER") == "thorough", slots: slots,
		families: map[string]int64{}, samples: map[string][]string{}, known: map[string]Quiet{}, knownCount: map[string]int64{},
		listed: readKnown(root, c.ID)}
	x.hash = maphash.MakeSeed()
	for i := range x.reached {
		x.reached[i].m = map[uint64]struct{}{}
	}
	x.workers = runtime.NumCPU()
	if x.workers > maxWorkers {
		x.workers = maxWorkers
	}
	if n, err := strconv.Atoi(os.Getenv("MC_WORKERS")); err == nil && n > 0 && n < x.workers {
		x.workers = n
	}
	if c.HangAfter == 0 {
		c.HangAfter = 60 * time.Second
	}
	for i := 0; i < x.workers; i++ {
		x.ws = append(x.ws, &W{X: x, ID: i, slot: slots[i*slotSize : (i+1)*slotSize], fam: map[string]int64{}, kc: map[string]int64{}, Local: map[string]any{}})
	}
	return x
}

// readKnown reads the known findings of a property: lines "known: property=<id> key=<key> <what fails>".
func readKnown(root, id string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(root, "KNOWN_FINDINGS.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			out[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return out
}

// Worker explores in this process; exit status 0, 1 (violation) or 7 (a case hangs).
func Worker(c *Check, root, slotFile string) int {
	debug.SetGCPercent(1000)
	debug.SetMemoryLimit(10 << 30)
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_AS, &lim) == nil && lim.Max >= 26<<30 {
		lim.Cur = 26 << 30
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	slots := mapSlots(slotFile)
	x := newX(c, root, slots)
	start := time.Now()
	limit := 270 * time.Second
	if x.Thorough {
		limit = 780 * time.Second
	}
	if s := os.Getenv("MC_DEADLINE"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			limit = d
		}
	}
	x.deadline = start.Add(limit)
	done := make(chan struct{})
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
			}
			now := time.Now()
			if now.After(x.deadline) && !x.stop.Load() {
				x.Partial("deadline reached")
				x.stop.Store(true)
			}
			for _, w := range x.ws {
				if s := w.since.Load(); s != 0 && now.Sub(time.Unix(0, s)) > c.HangAfter {
					fmt.Fprintf(os.Stderr, "worker %d does not come back from a case\n", w.ID)
					os.Exit(7)
				}
			}
		}
	}()
	c.Explore(x)
	close(done)
	for _, w := range x.ws {
		x.states += w.states
		x.trans += w.trans
		x.traces += w.traces
		for f, n := range w.fam {
			x.families[f] += n
		}
		for k, n := range w.kc {
			x.knownCount[k] += n
		}
	}
	x.evidence(start)
	return x.finish()
}

func (x *X) evidence(start time.Time) {
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	tier := "quick"
	if x.Thorough {
		tier = "thorough"
	}
	samples := []any{}
	fams := []string{}
	for f := range x.samples {
		fams = append(fams, f)
	}
	sort.Strings(fams)
	for _, f := range fams {
		for _, s := range x.samples[f] {
			samples = append(samples, map[string]string{"family": f, "case": s})
		}
	}
	cov := map[string]any{
		"states": x.states, "transitions": x.trans, "traces_validated_against_impl": x.traces,
		"samples": samples, "exhaustive": !x.late.Load() && len(x.violations) == 0, "families": x.families,
	}
	if len(x.knownCount) > 0 {
		cov["known_finding_cases"] = x.knownCount
	}
	WriteEvidence(x.Root, x.Check.ID, map[string]any{
		"property": x.Check.ID, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "assumptions": x.Check.Assumptions, "violations": len(x.violations),
	})
}

// WriteEvidence writes the evidence file of a property.
func WriteEvidence(root, id string, ev map[string]any) {
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, id+".json"), append(b, '\n'), 0o644)
}

func (x *X) finish() int {
	for _, k := range x.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d cases)\n", x.Check.ID, x.listed[k.Key], x.knownCount[k.Key])
	}
	fmt.Printf("%s: states=%d transitions=%d traces=%d\n", x.Check.ID, x.states, x.trans, x.traces)
	if len(x.violations) == 0 {
		return 0
	}
	for i, v := range x.violations {
		printViolation(x.Root, x.Check.ID, i, v)
	}
	return 1
}

func printViolation(root, id string, i int, v Violation) {
	dir := filepath.Join(root, "out")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i+1))
	b, _ := json.MarshalIndent(map[string]string{"property": id, "case_b64": b64(v.Case), "case": v.Case, "what": v.What,
		"replay": "bash /verif/run.sh replay " + path}, "", " ")
	_ = os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("case %q\n%s\n", clip(v.Case), clip(v.What))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
}
