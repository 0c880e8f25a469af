package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

var propC02 = kit.Prop[storeAndSteps]{
	ID:   "C02",
	Rule: "a case is a history of 2-16 additions over an overlapping vocabulary; (one history in 24 has 30-70 steps, mostly of one kind, checked now and then) after every addition every earlier remark is read again by its original handle and by identifier; non-trivial: at least 3 remarks and two different texts that begin with the same character",
	Gen: func(t *rapid.T) storeAndSteps {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, Bulk: true, Min: 2, Max: 16, Ops: kit.AllOps, ByID: true}
		return storeAndSteps{kit.DrawStore(t, true, false), h.Draw(t, v)}
	},
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if !kit.Due(i, len(c.Steps)) {
				continue
			}
			if err := w.CheckEvery(3, 0, w.CheckText); err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
		}
		if len(w.M.Remarks) >= 3 && overlapping(c.Steps) {
			cov.NonTrivial()
		}
		labelOps(cov, c.Steps)
		return w.CheckEvery(7, 0, w.CheckText)
	},
}

// overlapping tells that two different texts begin with the same character.
func overlapping(steps []kit.Step) bool {
	first := map[rune]string{}
	for _, s := range steps {
		for _, x := range []string{string(s.O), string(s.P)} {
			for _, r := range x {
				if y, ok := first[r]; ok && y != x {
					return true
				}
				first[r] = x
				break
			}
		}
	}
	return false
}

func labelOps(cov *kit.Cov, steps []kit.Step) {
	for _, s := range steps {
		cov.Label("op:" + s.Op)
		if s.Via == 1 {
			cov.Label("op by identifier")
		}
	}
}

func TestC02(t *testing.T) { kit.Run(t, "main", propC02) }
func FuzzC02(f *testing.F) { kit.Fuzz(f, "main", propC02) }
