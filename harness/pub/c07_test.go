package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// genChain chains very many remarks of one fact, the opening one or another.
func genChain(t *rapid.T) storeAndSteps {
	v := kit.DrawVocabulary(t)
	c := storeAndSteps{Store: kit.DrawStore(t, true, false)}
	add := func(op string, on int) {
		s := kit.Step{Op: op, On: on}
		if op == "story" || op == "fact" || op == "child" {
			s.O = v.Draw(t, "object")
		}
		if op != "link" {
			s.P = v.Draw(t, "property")
		}
		c.Steps = append(c.Steps, s)
	}
	add("story", 0)
	n := kit.Int(30, kit.One([]int{60, 60, 80, 130}).Draw(t, "length")).Draw(t, "n")
	for i := 0; i < n; i++ {
		add("remark", 0)
		if i%50 != 49 || rapid.Bool().Draw(t, "now") {
			add("link", 0)
		}
	}
	switch kit.Int(0, 2).Draw(t, "then") {
	case 0:
		add("fact", -1)
	case 1:
		add("child", 0)
	}
	return c
}

var propC07 = kit.Prop[storeAndSteps]{
	ID:   "C07",
	Rule: "a case is a history of 2-18 additions of all kinds, in which remarks of a fact are also chained in the storage (in one of 60, 30-130 remarks in one chain); after every addition the first fact and the rendered text are read from every remark, against the model; non-trivial: a story opened from a remark other than its opening remark, whose opening fact has a chain of at least 2 remarks",
	Gen: func(t *rapid.T) storeAndSteps {
		if kit.Int(0, 59).Draw(t, "chain") == 59 {
			return genChain(t)
		}
		return genShape(t, kit.History{Long: true, Min: 2, Max: 18, ByID: true, Graphs: 2,
			Ops: []kit.Choice{{"story", 2}, {"remark", 7}, {"fact", 3}, {"child", 2}, {"open", 1}, {"link", 6}}})
	},
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		check := func(r int, h kit.Agg) error {
			if err := w.CheckFirstFact(r, h); err != nil {
				return err
			}
			if err := w.CheckNextRemark(r, h); err != nil {
				return err
			}
			return w.CheckStory(r, h, 0)
		}
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if !kit.Due(i, len(c.Steps)) || len(c.Steps) > 60 {
				continue
			}
			if err := w.CheckEvery(3, 0, check); err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
		}
		for r := range w.M.Remarks {
			n := 0
			for x := w.M.FirstFact(r); x >= 0; x = w.M.Remarks[x].Next {
				n++
			}
			if n >= 2 && w.M.FirstFact(r) != r {
				cov.NonTrivial()
			}
			cov.Label(fmt.Sprintf("chain of %d", n))
		}
		labelShape(cov, w.M)
		return w.CheckEvery(4, 0, check)
	},
}

func TestC07(t *testing.T) { kit.Run(t, "main", propC07) }
func FuzzC07(f *testing.F) { kit.Fuzz(f, "main", propC07) }
