package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// interleaveCase has several histories of one story each, and an order in which
// their steps are run in one storage.
type interleaveCase struct {
	Store   kit.StoreSpec `json:"store"`
	Stories [][]kit.Step  `json:"stories"`
	Order   []int         `json:"order"` // which history makes the next step, modulo those left
}

var propC16 = kit.Prop[interleaveCase]{
	ID:   "C16",
	Rule: "a case has 2-4 histories, each of one story with its facts, remarks and child stories, over one vocabulary, and an interleaving; every history run alone and run interleaved in one storage must give the same results and readings; non-trivial: at least 2 histories with 3 or more remarks, really interleaved",
	Gen: func(t *rapid.T) interleaveCase {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, Min: 1, Max: 7, ByID: true, Ops: []kit.Choice{{"remark", 3}, {"fact", 4}, {"child", 4}, {"link", 1}}}
		c := interleaveCase{Store: kit.DrawStore(t, true, false)}
		for i, n := 0, kit.Int(2, 4).Draw(t, "stories"); i < n; i++ {
			if i > 0 && kit.Int(0, 3).Draw(t, "twin") == 0 {
				c.Stories = append(c.Stories, c.Stories[0]) // identical histories
				continue
			}
			c.Stories = append(c.Stories, h.Draw(t, v))
		}
		c.Order = rapid.SliceOfN(kit.Int(0, 11), 0, 28).Draw(t, "order")
		return c
	},
	Exec: func(c interleaveCase, cov *kit.Cov) error {
		// interleaved: one storage, one graph, one world per history
		all := kit.NewSpy(c.Store.New())
		together := make([]*kit.World, len(c.Stories))
		shared := kit.NewWorldOn(all)
		got := make([][]string, len(c.Stories))
		at := make([]int, len(c.Stories))
		for i := range c.Stories {
			together[i] = &kit.World{Spy: all, Graphs: shared.Graphs, M: &kit.Model{}}
		}
		last, switches := -1, 0
		for n := 0; ; n++ {
			var left []int
			for i := range c.Stories {
				if at[i] < len(c.Stories[i]) {
					left = append(left, i)
				}
			}
			if len(left) == 0 {
				break
			}
			pick := 0
			if len(c.Order) > 0 {
				pick = mod(c.Order[n%len(c.Order)], len(left))
			}
			i := left[pick]
			if last != i {
				switches++
			}
			last = i
			out, err := outcomes(together[i], c.Stories[i][at[i]:at[i]+1], nil)
			if err != nil {
				return err
			}
			got[i] = append(got[i], out...)
			at[i]++
		}
		cov.Label(fmt.Sprintf("switches: %d", switches))
		large := 0
		for i, steps := range c.Stories {
			alone := kit.NewWorld(c.Store.New())
			var want []string
			for _, s := range steps {
				out, err := outcomes(alone, []kit.Step{s}, nil)
				if err != nil {
					return err
				}
				want = append(want, out...)
			}
			if len(alone.M.Remarks) >= 3 {
				large++
			}
			if err := differ(fmt.Sprintf("history %d, operation", i), want, got[i]); err != nil {
				return err
			}
			for _, byID := range []bool{false, true} {
				if err := differ(fmt.Sprintf("history %d, reading of remark", i), readings(alone, 0, byID), readings(together[i], 0, byID)); err != nil {
					return err
				}
			}
		}
		if large >= 2 && switches > len(c.Stories) {
			cov.NonTrivial()
		}
		return nil
	},
}

func TestC16(t *testing.T) { kit.Run(t, "main", propC16) }
func FuzzC16(f *testing.F) { kit.Fuzz(f, "main", propC16) }
