package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// walkStep is a step made on a remark reached on foot. The walk starts at the
// remark of the step, got as the step says, or at a remark reached earlier.
type walkStep struct {
	kit.Step
	Kept int   `json:"kept,omitempty"` // 0, or start from the handle reached that many walks ago
	Walk []int `json:"walk,omitempty"` // each chooses among the moves there are
}

type walkCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []walkStep    `json:"steps"`
}

// reached is a handle and the remark it stands for.
type reached struct {
	h kit.Agg
	r int
}

// walk goes from one remark to another and tells the moves made.
func walk(w *kit.World, from reached, choices []int) (reached, []string, error) {
	var path []string
	for _, c := range choices {
		m := w.M
		to := []int{m.FirstFact(from.r), m.NextFact(from.r), m.NextStory(from.r), m.Remarks[from.r].Next}
		var open []int
		for i, r := range to {
			if r >= 0 {
				open = append(open, i)
			}
		}
		// the first fact can always be reached, the other moves are wanted more
		if len(open) > 1 {
			open = append(open[1:], open...)
		}
		i := open[mod(c, len(open))]
		var a kit.Agg
		var err error
		switch i {
		case 0:
			a, err = kit.First(from.h)
		case 1:
			a, err = kit.Dirs[1].Move(from.h)
		case 2:
			a, err = kit.Dirs[2].Move(from.h)
		case 3:
			a, err = kit.Dirs[0].Move(from.h)
		}
		path = append(path, []string{"first fact", "next fact", "next story", "next remark"}[i])
		if err != nil {
			return from, path, fmt.Errorf("from remark #%d by %v: %w", from.r, path, err)
		}
		from = reached{a, to[i]}
	}
	return from, path, nil
}

var propC25 = kit.Prop[walkCase]{
	ID:   "C25",
	Rule: "a case is a history of 2-10 steps (now and then 30-70), most of its additions made on a handle reached by a walk of 1-4 moves from a returned, a fetched or an earlier reached handle; every handle reached must read as the remark it stands for, every addition must give what the model says, and the storage must be the same, node by node, as when each addition is made on the fetched remark; non-trivial: at least 2 additions on handles reached by a walk that leaves its starting remark",
	Gen: func(t *rapid.T) walkCase {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, NoMass: true, Min: 2, Max: 10, ByID: true, Graphs: 2,
			Ops: []kit.Choice{{"story", 1}, {"remark", 4}, {"fact", 4}, {"child", 4}, {"link", 2}, {"open", 1}}}
		c := walkCase{Store: kit.DrawStore(t, true, true)}
		for _, s := range h.Draw(t, v) {
			x := walkStep{Step: s}
			if s.Op == "remark" || s.Op == "fact" || s.Op == "child" {
				if kit.Int(0, 3).Draw(t, "keep") == 0 {
					x.Kept = kit.Int(1, 4).Draw(t, "kept")
				}
				x.Walk = rapid.SliceOfN(kit.Int(0, 11), 0, 4).Draw(t, "walk")
			}
			c.Steps = append(c.Steps, x)
		}
		return c
	},
	Exec: func(c walkCase, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		plain := kit.NewWorld(c.Store.New())
		var kept []reached
		moved := 0
		add := func(i int, s walkStep) error {
			if !w.Runnable(s.Step) {
				return nil
			}
			switch s.Op {
			case "story", "open", "link":
				if _, err := plain.Add(s.Step); err != nil {
					return fmt.Errorf("without walks: %w", err)
				}
				_, err := w.Add(s.Step)
				return err
			}
			w.Spy.Arm(0, false, false)
			from := reached{r: w.Target(s.Step)}
			if s.Kept > 0 && len(kept) > 0 {
				from = kept[len(kept)-1-mod(s.Kept-1, len(kept))]
			} else {
				var err error
				if from.h, err = w.Handle(from.r, s.Via, s.G); err != nil {
					return err
				}
			}
			to, path, err := walk(w, from, s.Walk)
			if err != nil {
				return err
			}
			where := fmt.Sprintf("reached from remark #%d by %v", from.r, path)
			if to.r != from.r {
				moved++
			}
			if err := w.CheckAll(to.r, to.h, s.G); err != nil {
				return fmt.Errorf("%s: %w", where, err)
			}
			kept = append(kept, to)
			s.On = to.r
			w.Spy.Arm(0, false, false)
			a, err := kit.CallOn(to.h, s.Step)
			if err != nil {
				return fmt.Errorf("%s, %s: %w", where, s.Show(), err)
			}
			r, err := w.Record(s.Step, a)
			if err != nil {
				return fmt.Errorf("%s, %s: %w", where, s.Show(), err)
			}
			if err := w.CheckAll(r, a, s.G); err != nil {
				return fmt.Errorf("%s, %s: %w", where, s.Show(), err)
			}
			if err := w.CheckAll(to.r, to.h, s.G); err != nil {
				return fmt.Errorf("%s, after %s: %w", where, s.Show(), err)
			}
			s.Via = 1
			if _, err := plain.Add(s.Step); err != nil {
				return fmt.Errorf("without walks: %w", err)
			}
			cov.Inner(1)
			for _, p := range path {
				cov.Label(p)
			}
			return nil
		}
		for i, s := range c.Steps {
			if err := add(i, s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		}
		for _, k := range kept {
			w.Spy.Arm(0, false, false)
			if err := w.CheckAll(k.r, k.h, 0); err != nil {
				return fmt.Errorf("a handle reached on the way, at the end: %w", err)
			}
		}
		if err := w.CheckEvery(3, 0, func(r int, h kit.Agg) error { return w.CheckAll(r, h, 0) }); err != nil {
			return err
		}
		if a, ok := plain.Spy.Inner.(*kit.Mem); ok && c.Store.Order != "shuffle" {
			if d := a.Diff(w.Spy.Mem()); d != "" {
				return fmt.Errorf("compared with additions on fetched remarks: %s", d)
			}
		}
		if moved >= 2 {
			cov.NonTrivial()
		}
		return nil
	},
}

func TestC25(t *testing.T) { kit.Run(t, "main", propC25) }
func FuzzC25(f *testing.F) { kit.Fuzz(f, "main", propC25) }
