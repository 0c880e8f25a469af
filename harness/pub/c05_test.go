package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// walkFacts goes to the first fact and then from fact to fact.
func walkFacts(w *kit.World, r int, h kit.Agg) error {
	a, err := kit.First(h)
	if err != nil {
		return fmt.Errorf("remark #%d, going to the first fact: %w", r, err)
	}
	facts := w.M.Stories[w.M.StoryOf(r)].Facts
	for i, f := range facts {
		want := w.M.Facts[f].Remarks[0]
		if err := w.CheckText(want, a); err != nil {
			return fmt.Errorf("from remark #%d, fact %d of the story: %w", r, i, err)
		}
		more, err := kit.Dirs[1].Ask(a)
		if err != nil {
			return fmt.Errorf("from remark #%d, asking after fact %d: %w", r, i, err)
		}
		if more != (i+1 < len(facts)) {
			return fmt.Errorf("from remark #%d, after fact %d of %d: has next fact is %v", r, i, len(facts), more)
		}
		if !more {
			break
		}
		a, err = kit.Dirs[1].Move(a)
		if err != nil {
			return fmt.Errorf("from remark #%d, moving on after fact %d: %w", r, i, err)
		}
	}
	return nil
}

func labelShape(cov *kit.Cov, m *kit.Model) (facts, children, depth, added int) {
	for _, s := range m.Stories {
		facts = max(facts, len(s.Facts))
		children = max(children, len(s.Children))
		depth = max(depth, s.Depth)
	}
	for _, f := range m.Facts {
		added = max(added, len(f.Remarks)-1)
	}
	cov.Label(fmt.Sprintf("most facts of a story: %d", facts))
	cov.Label(fmt.Sprintf("most children of a story: %d", children))
	cov.Label(fmt.Sprintf("deepest nesting: %d", depth))
	cov.Label(fmt.Sprintf("most remarks added to a fact: %d", added))
	return
}

// shaped histories: few texts, so that the length goes into the structure
func genShape(t *rapid.T, h kit.History) storeAndSteps {
	v := kit.DrawVocabulary(t)
	return storeAndSteps{kit.DrawStore(t, true, false), h.Draw(t, v)}
}

var propC05 = kit.Prop[storeAndSteps]{
	ID:   "C05",
	Rule: "a case is a history of 2-18 additions, mostly facts added from any remark of any story; (one history in 24 has 30-70 steps, mostly of one kind, checked now and then) after every addition every remark is asked for its next fact and the facts are walked from it, against the model; non-trivial: a story with at least 3 facts one of which was added from a remark not of the last fact",
	Gen: func(t *rapid.T) storeAndSteps {
		return genShape(t, kit.History{Long: true, Min: 2, Max: 18, ByID: true, Graphs: 2,
			Ops: []kit.Choice{{"story", 2}, {"remark", 4}, {"fact", 10}, {"child", 2}, {"open", 1}}})
	},
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		inner := false
		for i, s := range c.Steps {
			if s.Op == "fact" && len(w.M.Remarks) > 0 && w.M.NextFact(w.Target(s)) >= 0 {
				inner = true
				cov.Label("fact added from an inner fact")
			}
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if !kit.Due(i, len(c.Steps)) {
				continue
			}
			if err := w.CheckEvery(3, 0, func(r int, h kit.Agg) error {
				if err := w.CheckNextFact(r, h); err != nil {
					return err
				}
				return walkFacts(w, r, h)
			}); err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
		}
		facts, _, _, _ := labelShape(cov, w.M)
		if facts >= 3 && inner {
			cov.NonTrivial()
		}
		return w.CheckEvery(4, 0, func(r int, h kit.Agg) error { return walkFacts(w, r, h) })
	},
}

func TestC05(t *testing.T) { kit.Run(t, "main", propC05) }
func FuzzC05(f *testing.F) { kit.Fuzz(f, "main", propC05) }
