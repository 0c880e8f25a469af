package kit

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Cov collects what one case covered.
type Cov struct {
	nontrivial bool
	labels     map[string]int
	inner      int // executions inside the case, e.g. fault positions
}

func (c *Cov) NonTrivial()       { c.nontrivial = true }
func (c *Cov) Label(name string) { c.labels[name]++ }
func (c *Cov) Inner(n int)       { c.inner += n }
func (c *Cov) Has(l string) bool { return c.labels[l] > 0 }

// Prop is one property: cases, and a pure function that decides a case. Exec
// returns an error when the case violates the property.
type Prop[C any] struct {
	ID   string
	Rule string
	Gen  func(t *rapid.T) C
	Exec func(c C, cov *Cov) error
}

type replay struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Message  string          `json:"message,omitempty"`
	Case     json.RawMessage `json:"case"`
}

type stats struct {
	Property   string            `json:"property"`
	Part       string            `json:"part"`
	Rule       string            `json:"rule"`
	Cases      int               `json:"cases"`
	Executions int               `json:"executions"`
	NonTrivial []string          `json:"nontrivial"`
	Labels     map[string]int    `json:"labels"`
	Samples    []json.RawMessage `json:"samples"`
	Failed     string            `json:"failed,omitempty"`
}

func execCase[C any](p Prop[C], part string, c C, cov *Cov) error {
	raw, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	current.Store(&running{p.ID, part, raw})
	defer current.Store(nil)
	pending(p.ID, part, raw)
	// The case is decided from its written form, so a replay decides the same.
	var back C
	if err := json.Unmarshal(raw, &back); err != nil {
		panic(fmt.Sprintf("kit: case does not survive JSON: %v in %s", err, raw))
	}
	var out error
	harness := Guard("harness", func() error { out = p.Exec(back, cov); return nil })
	if out == nil && harness != nil {
		out = harness
	}
	return out
}

type running struct {
	id, part string
	raw      []byte
}

var current atomic.Pointer[running]

func cpu() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// pending leaves the case behind that is about to be run, for the ends of the
// process that nothing in it can catch (exhausted stack, concurrent map writes).
func pending(id, part string, raw []byte) {
	if path := os.Getenv("VERIF_FAIL"); path != "" {
		b, _ := json.Marshal(replay{id, part, "the process was ended by the Go runtime", raw})
		os.WriteFile(path+".pending", b, 0o644)
	}
}

var state = regexp.MustCompile(`(?m)^goroutine \d+ [^\n]*\[([a-z]+)`)

// stuck tells that every goroutine but this one waits for another.
func stuck() bool {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	for i, m := range state.FindAllSubmatch(b, -1) {
		if i == 0 {
			continue // this one
		}
		switch string(m[1]) {
		case "running", "runnable", "syscall", "sleep", "copystack", "preempted":
			return false
		}
	}
	return len(b) < 1<<20
}

// watch ends the process when an operation takes 120 s of processor time without
// accessing the storage, waits for something that cannot happen, or fills 6 GB of
// memory. Endless loops that do access the storage run into CallBudget.
func watch() {
	var last int64 = -1
	var since time.Duration
	still, waits := 0, 0
	for {
		time.Sleep(500 * time.Millisecond)
		r := current.Load()
		if r == nil {
			last = -1
			still, waits = 0, 0
			continue
		}
		if now := accesses.Load() + operations.Load(); now != last {
			last, since = now, cpu()
			still, waits = 0, 0
		}
		if still++; still > 10 && stuck() {
			waits++
		} else {
			waits = 0
		}
		if waits > 6 && current.Load() == r {
			save(r.id, r.part, "the operation waits forever", r.raw)
			fmt.Println("FAILED the operation waits forever")
			os.Exit(1)
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 6<<30 {
			runtime.GC()
			runtime.ReadMemStats(&m)
		}
		if cpu()-since > 120*time.Second || m.HeapAlloc > 6<<30 {
			save(r.id, r.part, "the operation does not end", r.raw)
			fmt.Println("FAILED the operation does not end")
			os.Exit(1)
		}
	}
}

func save(id, part, message string, raw []byte) {
	path := os.Getenv("VERIF_FAIL")
	if path == "" {
		return
	}
	b, _ := json.MarshalIndent(replay{id, part, message, raw}, "", " ")
	if err := os.WriteFile(path+".tmp", append(b, '\n'), 0o644); err == nil {
		os.Rename(path+".tmp", path)
	}
}

// Run generates cases, or replays one when VERIF_REPLAY names a file.
func Run[C any](t *testing.T, part string, p Prop[C]) {
	go watch()
	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		b, err := os.ReadFile(path)
		if err != nil {
			t.Fatal(err)
		}
		var r replay
		if err := json.Unmarshal(b, &r); err != nil {
			t.Fatal(err)
		}
		if r.Property != p.ID || r.Part != part {
			return
		}
		var c C
		if err := json.Unmarshal(r.Case, &c); err != nil {
			t.Fatal(err)
		}
		fmt.Println("REPLAYED", part)
		if err := execCase(p, part, c, &Cov{labels: map[string]int{}}); err != nil {
			save(p.ID, part, err.Error(), r.Case)
			fmt.Printf("FAILED %v\n", err)
			t.Fatalf("%v", err)
		}
		return
	}
	if os.Getenv("VERIF_PART") != "" && os.Getenv("VERIF_PART") != part {
		return
	}

	s := stats{Property: p.ID, Part: part, Rule: p.Rule, Labels: map[string]int{}}
	seen := map[uint64]bool{}
	failed := false
	defer func() {
		for h := range seen {
			s.NonTrivial = append(s.NonTrivial, fmt.Sprintf("%016x", h))
		}
		sort.Strings(s.NonTrivial)
		if path := os.Getenv("VERIF_STATS"); path != "" {
			b, _ := json.Marshal(s)
			os.WriteFile(path, b, 0o644)
		}
	}()
	late := func() bool { return false }
	if n, err := strconv.Atoi(os.Getenv("VERIF_SECONDS")); err == nil {
		end := time.Now().Add(time.Duration(n) * time.Second)
		late = func() bool { return !failed && time.Now().After(end) }
	}
	rapid.Check(t, func(rt *rapid.T) {
		if late() {
			return // on a slow machine fewer cases are better than no answer
		}
		c := p.Gen(rt)
		cov := &Cov{labels: map[string]int{}}
		err := execCase(p, part, c, cov)
		raw, _ := json.Marshal(c)
		if !failed {
			s.Cases++
			s.Executions += 1 + cov.inner
			for l := range cov.labels {
				s.Labels[l]++
			}
			if cov.nontrivial {
				h := fnv.New64a()
				h.Write(raw)
				k := h.Sum64()
				if !seen[k] {
					seen[k] = true
					n := len(seen)
					if (n == 1 || n == 10 || n == 100) && len(raw) < 2500 {
						s.Samples = append(s.Samples, raw)
					}
				}
			}
		}
		if err != nil {
			failed = true
			s.Failed = err.Error()
			save(p.ID, part, err.Error(), raw)
			rt.Fatalf("FAILED %v", err)
		}
	})
}

// Fuzz drives the same property from the coverage-guided fuzzer of Go.
func Fuzz[C any](f *testing.F, part string, p Prop[C]) {
	go watch()
	// Start from inputs long enough for a whole case. rapid takes one word per
	// draw and keeps its low bits; small words make small choices.
	x := uint64(88172645463325252)
	for i := 0; i < 24; i++ {
		b := make([]byte, 0, 48*1024)
		for len(b) < cap(b) {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			b = binary.LittleEndian.AppendUint64(b, x)
		}
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(func(rt *rapid.T) {
		c := p.Gen(rt)
		cov := &Cov{labels: map[string]int{}}
		if err := execCase(p, part, c, cov); err != nil {
			raw, _ := json.Marshal(c)
			save(p.ID, part, err.Error(), raw)
			rt.Fatalf("FAILED %v", err)
		}
	}))
}
