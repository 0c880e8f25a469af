package pub

import (
	"fmt"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// soakStep is an addition, a read or the opening of a graph. Some are broken off.
type soakStep struct {
	kit.Step
	// Fail is where an operation is broken off, in thousandths of its accesses;
	// negative: that many accesses before its end; 0: not at all.
	Fail   int  `json:"fail,omitempty"`
	Sticky bool `json:"sticky,omitempty"`
	Again  int  `json:"again,omitempty"` // repeated at once: 1 the same way, 2 on the next graph, 0 not
}

type soakCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []soakStep    `json:"steps"`
}

// propSoak is C10 over histories in which many operations fail, most of them
// for good.
var propSoak = kit.Prop[soakCase]{
	ID:   "C10",
	Rule: "a case is a history of 4-50 additions and reads over up to three graphs, of which half are broken off at an access anywhere (one in three within the last five) and either repeated at once, on the same or the next graph, or given up; nothing that fails may be seen by any read, each repetition must succeed, and at the end everything reads as in a model that knows the successful additions only; non-trivial: at least 3 failures and 3 remarks",
	Gen: func(t *rapid.T) soakCase {
		v := kit.DrawVocabulary(t)
		ops := []kit.Choice{{"story", 3}, {"remark", 4}, {"fact", 5}, {"child", 5}, {"open", 1}}
		for _, r := range readOps {
			ops = append(ops, kit.Choice{Name: r, Weight: 1})
		}
		h := kit.History{Min: 4, Max: kit.One([]int{8, 16, 50}).Draw(t, "length"), ByID: true, Graphs: 3, Ops: ops}
		c := soakCase{Store: kit.DrawStore(t, true, true)}
		for _, s := range h.Draw(t, v) {
			g := soakStep{Step: s}
			switch kit.Int(0, 5).Draw(t, "trouble") {
			case 0, 1:
				g.Fail = kit.Int(1, 1000).Draw(t, "fail")
			case 2:
				g.Fail = -kit.Int(1, 5).Draw(t, "fail")
			}
			if g.Fail != 0 {
				g.Sticky = rapid.Bool().Draw(t, "sticky")
				g.Again = kit.Int(0, 2).Draw(t, "again")
			}
			c.Steps = append(c.Steps, g)
		}
		return c
	},
	Exec: func(c soakCase, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		w.Light = true
		failures, last := 0, 40
		// run runs the step with access k failing; ready is false when nothing was run.
		run := func(s kit.Step, k int, sticky bool) (a kit.Agg, fired bool, n int, err error) {
			w.Spy.Arm(0, false, false)
			if s.Op == "story" {
				w.Spy.Arm(k, sticky, false)
				a, err = callStory(w, s)
			} else {
				h, err := w.Handle(w.Target(s), s.Via, s.G)
				if err != nil {
					return nil, false, 0, fmt.Errorf("fetching the remark to work on: %w", err)
				}
				w.Spy.Arm(k, sticky, false)
				if isRead(s.Op) {
					err = runRead(w, mod(s.G, len(w.Graphs)), s.Op, h, w.M.Remarks[w.Target(s)].ID)
				} else {
					a, err = kit.CallOn(h, s)
				}
				fired = w.Spy.Fired
				return a, fired, w.Spy.Disarm(), err
			}
			fired = w.Spy.Fired
			return a, fired, w.Spy.Disarm(), err
		}
		some := func(i int) error {
			n := len(w.M.Remarks)
			for _, r := range []int{0, n / 2, n - 1, mod(c.Steps[i].On, max(n, 1))} {
				if r < 0 || r >= n {
					continue
				}
				g := mod(i, len(w.Graphs))
				h, err := w.Handle(r, i%2, g)
				if err != nil {
					return fmt.Errorf("fetching remark #%d: %w", r, err)
				}
				if err := w.CheckAll(r, h, g); err != nil {
					return err
				}
			}
			return nil
		}
		for i, s := range c.Steps {
			if s.Op == "open" {
				w.Open()
				continue
			}
			if len(w.M.Remarks) == 0 && i > 0 && !isRead(s.Op) {
				s.Op = "story" // whatever came before has failed
				if s.O == "" {
					s.O = s.P
				}
			}
			if !w.Runnable(s.Step) {
				continue
			}
			what := fmt.Sprintf("step %d, %s", i, s.Show())
			fail := s.Fail
			if fail != 0 && s.Op == "child" && c.Store.Order != "" && len(w.M.Stories[w.M.StoryOf(w.Target(s.Step))].Children) > 0 {
				fail = 0 // a known finding
			}
			k := 0
			if fail != 0 {
				// how many accesses it makes: tried on a copy where there is one
				total := last
				if m, ok := w.Spy.Inner.(*kit.Mem); ok {
					w.Spy.Inner = m.Clone()
					trial := kit.NewWorldOn(w.Spy)
					trial.M = w.M
					own := *w
					w.Graphs = trial.Graphs
					st := s.Step
					st.Via, st.G = 1, 0
					if st.Op == "story" {
						st.Via = 0
					}
					_, _, n, err := run(st, 0, false)
					w.Graphs = own.Graphs
					w.Spy.Inner = m
					if err != nil && !isRead(s.Op) {
						return fmt.Errorf("%s, on a copy: %w", what, err)
					}
					total = n
				}
				if fail > 0 {
					k = 1 + fail*max(total-1, 0)/1000
				} else {
					k = max(total+1+fail, 1)
				}
			}
			a, fired, n, err := run(s.Step, k, s.Sticky)
			if kit.IsCrash(err) {
				return fmt.Errorf("%s: %w", what, err)
			}
			if !fired && !isRead(s.Op) {
				last = n
			}
			if fired {
				failures++
				if err == nil && !isRead(s.Op) {
					return nil // success in spite of a failure is for C09
				}
				if err := some(i); err != nil {
					return fmt.Errorf("%s broken off at access %d: %w", what, k, err)
				}
				if s.Again == 0 || isRead(s.Op) {
					continue
				}
				if s.Again == 2 {
					s.Via, s.G = 1, s.G+1
				}
				a, _, _, err = run(s.Step, 0, false)
				what += fmt.Sprintf(" broken off at access %d, then repeated", k)
			}
			if isRead(s.Op) {
				continue
			}
			if err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if _, err := w.Record(s.Step, a); err != nil {
				return fmt.Errorf("%s: %w", what, err)
			}
			if i%4 == 3 {
				if err := some(i); err != nil {
					return fmt.Errorf("%s: %w", what, err)
				}
			}
		}
		if failures >= 3 && len(w.M.Remarks) >= 3 {
			cov.NonTrivial()
		}
		cov.Label(fmt.Sprintf("failures: %d0s", failures/10))
		if err := w.CheckEvery(7, 0, func(r int, h kit.Agg) error { return w.CheckAll(r, h, 0) }); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
		return nil
	},
}
