package pub

import (
	"fmt"
	"os"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// brokenCase is a history, an addition that is broken off at every access in
// turn, the earlier attempts that failed, and additions afterwards.
type brokenCase struct {
	Store  kit.StoreSpec `json:"store"`
	Steps  []kit.Step    `json:"steps"`
	Warm   bool          `json:"warm"`
	Sticky bool          `json:"sticky"` // the storage stays out of order until the operation returns
	Last   kit.Step      `json:"last"`
	Before []int         `json:"before"` // accesses at which earlier attempts failed, modulo their number
	Other  bool          `json:"other"`  // the successful attempt runs on a reopened graph
	After  []kit.Step    `json:"after"`
	Offset int           `json:"offset"` // which of the reads are failed too
	// Sibling lets the addition be a child story with siblings in a storage that
	// does not list links in the order they were made (a known finding).
	Sibling bool `json:"sibling,omitempty"`
}

func genBroken(t *rapid.T) brokenCase {
	v := kit.DrawVocabulary(t)
	h := kit.History{Long: true, NoMass: true, Min: 0, Max: 5, Ops: []kit.Choice{{"story", 1}, {"remark", 3}, {"fact", 4}, {"child", 4}}}
	c := brokenCase{Store: kit.DrawStore(t, false, true), Steps: h.Draw(t, v)}
	c.Warm = rapid.Bool().Draw(t, "warm")
	c.Sticky = rapid.Bool().Draw(t, "sticky")
	c.Last = kit.Step{Op: kit.One([]string{"story", "remark", "fact", "fact", "child", "child"}).Draw(t, "lastOp")}
	if len(c.Steps) == 0 {
		c.Last.Op = "story" // the very first use
	}
	h.Fill(t, &v, &c.Last)
	c.Before = rapid.SliceOfN(kit.Int(0, 400), 0, 2).Draw(t, "before")
	c.Other = rapid.Bool().Draw(t, "other")
	a := kit.History{Min: 0, Max: 3, Ops: []kit.Choice{{"story", 1}, {"remark", 3}, {"fact", 4}, {"child", 4}}}
	c.After = a.Draw(t, v)
	// the first of a drawn history is a story; any kind may follow here
	for i := range c.After {
		if i == 0 && len(c.Steps) > 0 {
			c.After[i].Op = kit.One([]string{"story", "remark", "fact", "child"}).Draw(t, "afterOp")
			c.After[i].On = kit.Int(0, 9).Draw(t, "afterOn")
		}
	}
	c.Offset = kit.Int(0, 5).Draw(t, "offset")
	return c
}

// attempt runs the addition with access k failing, on graph g. It tells whether
// the failure was reached.
func attempt(w *kit.World, g int, s kit.Step, k int, sticky bool) (fired bool, a kit.Agg, n int, err error) {
	var h kit.Agg
	if s.Op != "story" {
		h, err = w.Fetch(w.Target(s), g)
		if err != nil {
			return false, nil, 0, fmt.Errorf("fetching the remark to work on: %w", err)
		}
	}
	w.Spy.Arm(k, sticky, false)
	if s.Op == "story" {
		s.G = g
		a, err = callStory(w, s)
	} else {
		a, err = kit.CallOn(h, s)
	}
	fired = w.Spy.Fired
	n = w.Spy.Disarm()
	return
}

func callStory(w *kit.World, s kit.Step) (a kit.Agg, err error) {
	err = kit.Guard("CreateStory", func() error {
		r, err := w.Graph(s.G).CreateStory(string(s.O), string(s.P))
		a = r.Aggregate
		return err
	})
	return
}

var propC10 = kit.Prop[brokenCase]{
	ID:   "C10",
	Rule: "a case is a history of 0-5 additions, an addition broken off at every one of its writing storage accesses and a sixth of its reading ones in turn (after up to two other failed attempts), and up to 3 further additions; after the failure everything must read as before on the same and on a reopened graph, the repeated operation and the further additions must succeed, and everything must read as in the model; executions count the broken runs; non-trivial: the addition makes at least 20 accesses",
	Gen:  genBroken,
	Exec: func(c brokenCase, cov *kit.Cov) error {
		w := kit.NewWorld(kit.NewMem(c.Store))
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		}
		if !w.Runnable(c.Last) {
			return nil
		}
		if t := w.Target(c.Last); c.Last.Op == "child" && !c.Sibling && len(w.M.Stories[w.M.StoryOf(t)].Children) > 0 {
			if w.Spy.Mem().Order("") {
				cov.Label("child story with siblings: links listed in order")
			}
		}
		base, model := w.Spy.Mem(), w.M
		if c.Store.Order != "" {
			cov.Label("order:" + c.Store.Order)
		}
		all := func(what string, ways, g int) error {
			err := w.CheckEvery(ways, g, func(r int, h kit.Agg) error { return w.CheckAll(r, h, g) })
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			return nil
		}
		// how many accesses the addition makes when nothing fails
		w.Spy.Inner = base.Clone()
		w.Graphs = nil
		w.Open()
		if c.Warm {
			if err := warm(w, 0); err != nil {
				return err
			}
		}
		w.Spy.Tracing = true
		_, _, total, err := attempt(w, 0, c.Last, 0, false)
		w.Spy.Tracing = false
		trace := append([]string(nil), w.Spy.Trace...)
		if err != nil {
			return fmt.Errorf("%s: %w", c.Last.Show(), err)
		}
		if total >= 20 {
			cov.NonTrivial()
		}
		cov.Label("op:" + c.Last.Op)
		if len(c.Steps) == 0 {
			cov.Label("broken off on an empty storage")
		}
		if len(c.Before) > 0 {
			cov.Label(fmt.Sprintf("%d failed attempts before", len(c.Before)))
		}
		w.Light = true
		// Every write, and one read in six: reads between two writes break off at
		// the same storage.
		var points []int
		for k := 1; k <= total; k++ {
			if read := trace[k-1] == "Has" || trace[k-1][:3] == "Rea" || trace[k-1][:3] == "Get"; read && k%6 != c.Offset {
				continue
			}
			points = append(points, k)
		}
		// Long texts make many accesses, most of them alike; then the first and the
		// last hundred, and some of those between.
		// Fewer where there is much to read.
		edge := 100
		w.Spy.Inner = base.Clone()
		reading := kit.Accesses()
		if err := all("before", 2, 0); err != nil {
			return err
		}
		reading = kit.Accesses() - reading
		if n := 3000000 / (1 + reading); n < edge {
			edge = max(n, 8)
		}
		step := 1 + len(points)*2/(3*edge)
		for i, k := range points {
			if len(points) > 3*edge && i >= edge && i < len(points)-edge && i%step != c.Offset%step {
				cov.Label("not every point to break off at")
				continue
			}
			cov.Inner(1)
			w.Spy.Inner = base.Clone()
			w.M = model.Clone()
			w.Graphs = nil
			w.Open()
			if c.Warm {
				if err := warm(w, 0); err != nil {
					return err
				}
			} else {
				w.Open()
			}
			// handles of this copy of the storage: what a graph has kept of another
			// copy does not count
			w.H = make([]kit.Agg, len(model.Remarks))
			for r := range w.H {
				var err error
				if w.H[r], err = w.Fetch(r, len(w.Graphs)-1); err != nil {
					return err
				}
			}
			what := fmt.Sprintf("%s broken off at access %d of %d", c.Last.Show(), k, total)
			var done kit.Agg
			for i, b := range append(append([]int(nil), c.Before...), k-1) {
				at := 1 + mod(b, total)
				if i < len(c.Before) {
					what += fmt.Sprintf(" (first at %d)", at)
				}
				fired, a, _, err := attempt(w, 0, c.Last, at, c.Sticky)
				if kit.IsCrash(err) {
					return fmt.Errorf("%s: %w", what, err)
				}
				if !fired {
					// after a failed attempt fewer accesses may be left to make
					if err != nil {
						return fmt.Errorf("%s, then repeated: %w", what, err)
					}
					done = a
					break
				}
				if err == nil {
					return nil // success in spite of a failure is for C09
				}
				if len(model.Remarks) > 0 {
					if err := all(what, 6, 0); err != nil {
						return err
					}
				}
			}
			g := 0
			if done == nil {
				if c.Other {
					w.Open()
					g = len(w.Graphs) - 1
				}
				_, a, _, err := attempt(w, g, c.Last, 0, false)
				if err != nil {
					return fmt.Errorf("%s, then repeated: %w", what, err)
				}
				done = a
			}
			if _, err := w.Record(c.Last, done); err != nil {
				return fmt.Errorf("%s, then repeated: %w", what, err)
			}
			if err := all(what+", then repeated", 7, 0); err != nil {
				return err
			}
			for i, s := range c.After {
				s.Via, s.G = 1, 0
				if _, err := w.Add(s); err != nil {
					return fmt.Errorf("%s, then repeated, then addition %d: %w", what, i, err)
				}
			}
			if len(c.After) > 0 {
				if err := all(what+", then repeated and extended", 7, g); err != nil {
					return err
				}
			}
		}
		return nil
	},
}

func TestC10(t *testing.T) {
	kit.Run(t, "main", propC10)
	kit.Run(t, "soak", propSoak)
}

func FuzzC10(f *testing.F) {
	if os.Getenv("VERIF_PART") == "soak" {
		kit.Fuzz(f, "soak", propSoak)
		return
	}
	kit.Fuzz(f, "main", propC10)
}
