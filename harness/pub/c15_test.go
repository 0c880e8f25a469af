package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

var propC15 = kit.Prop[storeAndSteps]{
	ID:   "C15",
	Rule: "a case is a history of 2-16 additions, mostly remarks added to facts of any remark including added ones; (one history in 24 has 30-70 steps, mostly of one kind, checked now and then) after every addition every remark has the object and property expected and the opening remark, next fact and next story of its fact; non-trivial: a remark added to an added remark in a story with several facts",
	Gen: func(t *rapid.T) storeAndSteps {
		return genShape(t, kit.History{Long: true, Min: 2, Max: 16, ByID: true, Graphs: 2,
			Ops: []kit.Choice{{"story", 2}, {"remark", 10}, {"fact", 4}, {"child", 3}, {"open", 1}}})
	},
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		check := func(r int, h kit.Agg) error {
			if err := w.CheckText(r, h); err != nil {
				return err
			}
			if err := w.CheckFirstFact(r, h); err != nil {
				return err
			}
			if err := w.CheckNextFact(r, h); err != nil {
				return err
			}
			return w.CheckNextStory(r, h)
		}
		onAdded := false
		for i, s := range c.Steps {
			if s.Op == "remark" && len(w.M.Remarks) > 0 {
				on := w.Target(s)
				if w.M.Facts[w.M.Remarks[on].Fact].Remarks[0] != on {
					onAdded = true
					cov.Label("added to an added remark")
				}
			}
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if !kit.Due(i, len(c.Steps)) {
				continue
			}
			if err := w.CheckEvery(3, 0, check); err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
		}
		facts, _, _, _ := labelShape(cov, w.M)
		if onAdded && facts >= 2 {
			cov.NonTrivial()
		}
		return w.CheckEvery(4, 0, check)
	},
}

func TestC15(t *testing.T) { kit.Run(t, "main", propC15) }
func FuzzC15(f *testing.F) { kit.Fuzz(f, "main", propC15) }
