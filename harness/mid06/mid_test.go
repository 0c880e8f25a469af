package mid06

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/concrete/fact"
	"github.com/mem-memov/semnet/internal/concrete/story"
	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

type parentCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []kit.Step    `json:"steps"`
}

// The way from a child story to its parent is not part of the public interface
// yet, so it is taken from the fact aggregate.
var prop = kit.Prop[parentCase]{
	ID:   "C06",
	Rule: "a case is a history of 2-16 additions, mostly child stories at any depth; from the fact of every remark the way up to the parent story is asked for and taken to the top, and siblings and facts are walked on the way, against the model; non-trivial: children at depth 2 or more",
	Gen: func(t *rapid.T) parentCase {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, Min: 2, Max: 16, Graphs: 2, ByID: true,
			Ops: []kit.Choice{{"story", 2}, {"remark", 3}, {"fact", 4}, {"child", 9}, {"open", 1}}}
		return parentCase{kit.DrawStore(t, true, true), h.Draw(t, v)}
	},
	Exec: func(c parentCase, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		}
		classes := class.NewRepository(w.Spy)
		facts := fact.NewRepository(w.Spy, classes, story.NewRepository(w.Spy, classes))
		w.Spy.Arm(0, false, false)

		// the node a remark is attached to its fact by, per remark
		factNode := map[int]uint{}
		for r := range w.M.Remarks {
			p, err := w.Position(r)
			if err != nil {
				return err
			}
			_, f, err := w.Spy.GetReference(p)
			if err != nil {
				return err
			}
			factNode[r] = f
		}
		for r := range w.M.Remarks {
			links, err := w.Spy.ReadTargets(factNode[r])
			if err != nil {
				return err
			}
			if len(links) != 1 {
				return fmt.Errorf("remark #%d is linked to %d facts", r, len(links))
			}
			err = kit.Guard("going up", func() error {
				f, err := facts.FetchByRemark(links[0])
				if err != nil {
					return err
				}
				for at := w.M.StoryOf(r); ; {
					up, err := f.HasParentStory()
					if err != nil {
						return fmt.Errorf("asking story %d for its parent: %w", at, err)
					}
					parent := w.M.Stories[at].Parent
					if up != (parent >= 0) {
						return fmt.Errorf("story %d has a parent is %v, expected %v", at, up, parent >= 0)
					}
					to, err := f.ToParentStory()
					if parent < 0 {
						if err == nil {
							return fmt.Errorf("story %d leads to a parent that does not exist", at)
						}
						return nil
					}
					if err != nil {
						return fmt.Errorf("going from story %d to its parent: %w", at, err)
					}
					opening := w.M.Facts[w.M.Stories[parent].Facts[0]].Remarks[0]
					first, err := to.GetFirstRemark()
					if err != nil {
						return fmt.Errorf("opening remark of the parent of story %d: %w", at, err)
					}
					if first != factNode[opening] {
						return fmt.Errorf("parent of story %d opens at node %d, expected node %d of remark #%d", at, first, factNode[opening], opening)
					}
					again, err := to.ToFirstFact()
					if err != nil {
						return fmt.Errorf("first fact of the parent of story %d: %w", at, err)
					}
					if again.GetRemark() != to.GetRemark() || again.GetStory() != to.GetStory() {
						return fmt.Errorf("parent of story %d is not at its first fact", at)
					}
					// the reached fact is fully usable: walk its facts
					here := to
					list := w.M.Stories[parent].Facts
					for i := range list {
						first, err := here.GetFirstRemark()
						if err != nil {
							return err
						}
						if want := w.M.Facts[list[i]].Remarks[0]; first != factNode[want] {
							return fmt.Errorf("fact %d of the parent of story %d opens at node %d, expected remark #%d", i, at, first, want)
						}
						more, err := here.HasNextFact()
						if err != nil {
							return err
						}
						if more != (i+1 < len(list)) {
							return fmt.Errorf("fact %d of the parent of story %d has a next fact is %v", i, at, more)
						}
						if more {
							if here, err = here.ToNextFact(); err != nil {
								return err
							}
						}
					}
					// siblings of the child come back to the same parent
					sib, err := f.HasNextStory()
					if err != nil {
						return err
					}
					if sib {
						n, err := f.ToNextStory()
						if err != nil {
							return fmt.Errorf("from story %d to the next story: %w", at, err)
						}
						p, err := n.ToParentStory()
						if err != nil {
							return fmt.Errorf("from the story after %d to the parent: %w", at, err)
						}
						if p.GetRemark() != to.GetRemark() {
							return fmt.Errorf("story %d and the one after it lead to different parents", at)
						}
					}
					f, at = to, parent
				}
			})
			if err != nil {
				return fmt.Errorf("from remark #%d: %w", r, err)
			}
			if w.M.Stories[w.M.StoryOf(r)].Depth >= 2 {
				cov.NonTrivial()
			}
			cov.Label(fmt.Sprintf("depth %d", w.M.Stories[w.M.StoryOf(r)].Depth))
		}
		return nil
	},
}

func TestC06(t *testing.T) { kit.Run(t, "parents", prop) }
func FuzzC06(f *testing.F) { kit.Fuzz(f, "parents", prop) }
