package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// scribeCase is content written by the specification of the stored form, and
// additions by the code under test.
type scribeCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []kit.Step    `json:"steps"`
	Then  []kit.Step    `json:"then"`
}

var propC26 = kit.Prop[scribeCase]{
	ID:   "C26",
	Rule: "a case is a history of 1-10 additions written into the storage by the harness in the stored form, read by the code under test at every remark, then extended by 0-6 additions of the code under test over the same vocabulary (links of remarks between), read again, by a second graph too, and the members of the eight classes counted against the model; non-trivial: at least two remarks written by the harness, and at least one added after",
	Gen: func(t *rapid.T) scribeCase {
		v := kit.DrawVocabulary(t)
		ops := []kit.Choice{{"story", 3}, {"remark", 3}, {"fact", 3}, {"child", 3}}
		h := kit.History{Long: true, Min: 1, Max: 10, Ops: ops}
		c := scribeCase{Store: kit.DrawStore(t, true, false), Steps: h.Draw(t, v)}
		then := kit.History{NoMass: true, Max: 6, ByID: true, Graphs: 2, Ops: append(ops, kit.Choice{"link", 2}, kit.Choice{"open", 1})}
		c.Then = then.Draw(t, v)
		return c
	},
	Exec: func(c scribeCase, cov *kit.Cov) error {
		store := c.Store.New()
		scribe := kit.Scribe{S: store, M: &kit.Model{}}
		for i, s := range c.Steps {
			if err := scribe.Add(s); err != nil {
				return fmt.Errorf("harness: writing step %d: %w", i, err)
			}
		}
		if len(scribe.M.Remarks) == 0 {
			return nil
		}
		w := kit.NewWorldOn(kit.NewSpy(store))
		if err := w.Adopt(scribe.M); err != nil {
			return err
		}
		written := len(w.M.Remarks)
		w.Light = written > 30
		check := func(r int, h kit.Agg) error { return w.CheckAll(r, h, 0) }
		if err := w.CheckEvery(1, 0, check); err != nil {
			return fmt.Errorf("as written: %w", err)
		}
		for i, s := range c.Then {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("added step %d: %w", i, err)
			}
			if err := w.CheckEvery(1, 0, w.CheckText); err != nil {
				return fmt.Errorf("after added step %d: %w", i, err)
			}
		}
		if err := w.CheckEvery(5, 0, check); err != nil {
			return fmt.Errorf("at the end: %w", err)
		}
		want := vocabulary(w.M)
		for class := 1; class <= 8; class++ {
			members, err := w.Spy.Inner.ReadSources(uint(class))
			if err != nil {
				return err
			}
			if len(members) != want[class] {
				return fmt.Errorf("at the end: %d %s stored, %d expected", len(members), classNames[class], want[class])
			}
		}
		labelOps(cov, c.Then)
		if written >= 2 && len(w.M.Remarks) > written {
			cov.NonTrivial()
		}
		return nil
	},
}

func TestC26(t *testing.T) { kit.Run(t, "main", propC26) }
func FuzzC26(f *testing.F) { kit.Fuzz(f, "main", propC26) }
