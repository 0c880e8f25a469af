package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

var propC20 = kit.Prop[storeAndSteps]{
	ID:   "C20",
	Rule: "a case is a history of 1-14 additions, chained remarks and opened graphs; from every remark, in each of the three directions, asking and moving must agree at every remark reached, and walks of facts and stories must not repeat a remark and must end; non-trivial: some walk of facts or stories has at least 3 remarks",
	Gen: func(t *rapid.T) storeAndSteps {
		return genShape(t, kit.History{Long: true, Min: 1, Max: 14, ByID: true, Graphs: 2,
			Ops: []kit.Choice{{"story", 2}, {"remark", 4}, {"fact", 5}, {"child", 5}, {"open", 1}, {"link", 3}}})
	},
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		longest := 0
		check := func(r int, h kit.Agg) error {
			for _, d := range kit.Dirs {
				a := h
				seen := map[uint]bool{}
				for n := 1; ; n++ {
					id, err := kit.ID(a)
					if err != nil {
						return fmt.Errorf("next %s from remark #%d: %w", d.Name, r, err)
					}
					if seen[id] {
						return fmt.Errorf("going to the next %s from remark #%d comes to %d twice", d.Name, r, id)
					}
					seen[id] = true
					if n > len(w.M.Remarks) {
						return fmt.Errorf("going to the next %s from remark #%d does not end", d.Name, r)
					}
					if d.Name != "remark" {
						longest = max(longest, n)
					}
					has, err := d.Ask(a)
					if err != nil {
						return fmt.Errorf("asking for the next %s of node %d: %w", d.Name, id, err)
					}
					next, err := d.Move(a)
					if kit.IsCrash(err) {
						return fmt.Errorf("moving to the next %s of node %d: %w", d.Name, id, err)
					}
					if has && err != nil {
						return fmt.Errorf("node %d has a next %s but moving there fails: %w", id, d.Name, err)
					}
					if !has && err == nil {
						return fmt.Errorf("node %d has no next %s but moving there succeeds", id, d.Name)
					}
					if !has {
						break
					}
					a = next
				}
			}
			return nil
		}
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if !kit.Due(i, len(c.Steps)) {
				continue
			}
			if err := w.CheckEvery(3, 0, check); err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
		}
		if longest >= 3 {
			cov.NonTrivial()
		}
		labelShape(cov, w.M)
		return w.CheckEvery(4, 0, check)
	},
}

func TestC20(t *testing.T) { kit.Run(t, "main", propC20) }
func FuzzC20(f *testing.F) { kit.Fuzz(f, "main", propC20) }
