package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// walkStories goes from child story to child story to the last one.
func walkStories(w *kit.World, r int, h kit.Agg) error {
	a := h
	for at := r; ; {
		if err := w.CheckNextStory(at, a); err != nil {
			return fmt.Errorf("walking the stories from remark #%d: %w", r, err)
		}
		next := w.M.NextStory(at)
		if next < 0 {
			return nil
		}
		var err error
		a, err = kit.Dirs[2].Move(a)
		if err != nil {
			return fmt.Errorf("remark #%d: %w", at, err)
		}
		at = next
	}
}

var propC06 = kit.Prop[storeAndSteps]{
	ID:   "C06",
	Rule: "a case is a history of 2-18 additions, mostly child stories created from any remark at any depth; (one history in 24 has 30-70 steps, mostly of one kind, checked now and then) after every addition every remark is asked for its next story and the sibling stories are walked from it, against the model; non-trivial: a story with at least 3 children, or children at depth 2 or more",
	Gen: func(t *rapid.T) storeAndSteps {
		return genShape(t, kit.History{Long: true, Min: 2, Max: 18, ByID: true, Graphs: 2,
			Ops: []kit.Choice{{"story", 2}, {"remark", 3}, {"fact", 4}, {"child", 10}, {"open", 1}}})
	},
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if !kit.Due(i, len(c.Steps)) {
				continue
			}
			if err := w.CheckEvery(3, 0, func(r int, h kit.Agg) error { return walkStories(w, r, h) }); err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
		}
		_, children, depth, _ := labelShape(cov, w.M)
		if children >= 3 || depth >= 2 {
			cov.NonTrivial()
		}
		return w.CheckEvery(4, 0, func(r int, h kit.Agg) error { return walkStories(w, r, h) })
	},
}

func TestC06(t *testing.T) { kit.Run(t, "main", propC06) }
func FuzzC06(f *testing.F) { kit.Fuzz(f, "main", propC06) }
