package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// apartCase has several histories, each on a storage of its own, and an order in
// which their steps are run.
type apartCase struct {
	Stores    []kit.StoreSpec `json:"stores"`
	Histories [][]kit.Step    `json:"histories"`
	Order     []int           `json:"order"` // which history makes the next step, modulo those left
}

var propC23 = kit.Prop[apartCase]{
	ID:   "C23",
	Rule: "a case has 2-3 histories over one vocabulary, each with graphs and a storage of its own, and an order in which their steps are taken; every step must give the same results and every storage must be the same, node by node, as when the history is run by itself, and everything must read as in the model; non-trivial: at least 2 histories with 2 or more remarks and at least 3 changes between them",
	Gen: func(t *rapid.T) apartCase {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, NoMass: true, Min: 1, Max: 8, ByID: true, Graphs: 2,
			Ops: []kit.Choice{{"story", 2}, {"remark", 3}, {"fact", 3}, {"child", 3}, {"link", 1}, {"open", 1}}}
		var c apartCase
		for i, n := 0, kit.Int(2, 3).Draw(t, "storages"); i < n; i++ {
			c.Stores = append(c.Stores, kit.DrawStore(t, true, true))
			if i > 0 && kit.Int(0, 3).Draw(t, "twin") == 0 {
				c.Histories = append(c.Histories, c.Histories[0]) // identical histories
				continue
			}
			c.Histories = append(c.Histories, h.Draw(t, v))
		}
		c.Order = rapid.SliceOfN(kit.Int(0, 5), 1, 24).Draw(t, "order")
		return c
	},
	Exec: func(c apartCase, cov *kit.Cov) error {
		worlds := make([]*kit.World, len(c.Histories))
		got := make([][]string, len(c.Histories))
		at := make([]int, len(c.Histories))
		for i := range worlds {
			worlds[i] = kit.NewWorld(c.Stores[i].New())
		}
		last, switches := -1, 0
		for n := 0; ; n++ {
			var left []int
			for i := range worlds {
				if at[i] < len(c.Histories[i]) {
					left = append(left, i)
				}
			}
			if len(left) == 0 {
				break
			}
			i := left[mod(c.Order[n%len(c.Order)], len(left))]
			if last >= 0 && last != i {
				switches++
			}
			last = i
			out, err := outcomes(worlds[i], c.Histories[i][at[i]:at[i]+1], nil)
			if err != nil {
				return fmt.Errorf("storage %d, step %d: %w", i, at[i], err)
			}
			got[i] = append(got[i], out...)
			at[i]++
		}
		large := 0
		for i, w := range worlds {
			if len(w.M.Remarks) >= 2 {
				large++
			}
			// what it says, now that the other storages are full as well
			err := w.CheckEvery(7, 0, func(r int, h kit.Agg) error { return w.CheckAll(r, h, 0) })
			if err != nil {
				return fmt.Errorf("storage %d: %w", i, err)
			}
		}
		for i, steps := range c.Histories {
			alone := kit.NewWorld(c.Stores[i].New())
			var want []string
			for _, s := range steps {
				out, err := outcomes(alone, []kit.Step{s}, nil)
				if err != nil {
					return fmt.Errorf("history %d alone: %w", i, err)
				}
				want = append(want, out...)
			}
			if err := differ(fmt.Sprintf("storage %d, operation", i), want, got[i]); err != nil {
				return err
			}
			if a, ok := alone.Spy.Inner.(*kit.Mem); ok {
				if c.Stores[i].Order == "shuffle" {
					continue // new nodes depend on the order met in this case, their number does not
				}
				if d := a.Diff(worlds[i].Spy.Mem()); d != "" {
					return fmt.Errorf("storage %d: %s", i, d)
				}
			}
			cov.Label("storage " + c.Stores[i].Kind)
		}
		cov.Label(fmt.Sprintf("%d storages", len(c.Stores)))
		if large >= 2 && switches >= 3 {
			cov.NonTrivial()
		}
		return nil
	},
}

func TestC23(t *testing.T) { kit.Run(t, "main", propC23) }
func FuzzC23(f *testing.F) { kit.Fuzz(f, "main", propC23) }
