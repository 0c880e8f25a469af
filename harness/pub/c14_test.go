package pub

import (
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

var propC14 = kit.Prop[storeAndSteps]{
	ID:   "C14",
	Rule: "a case is a history of 2-14 additions and opened graphs on a storage that lists links reversed or shuffled anew at every access and numbers nodes with gaps, downwards or scattered; operations and all readings are compared with the same history on the plain storage and on clew; non-trivial: order or numbering differs from the plain one and at least 3 remarks exist",
	Gen: func(t *rapid.T) storeAndSteps {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, Min: 2, Max: 14, Graphs: 2, ByID: true,
			Ops: []kit.Choice{{"story", 2}, {"remark", 3}, {"fact", 4}, {"child", 6}, {"open", 1}, {"link", 1}}}
		return storeAndSteps{kit.DrawStore(t, false, true), h.Draw(t, v)}
	},
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		type result struct{ done, handles, fetched []string }
		run := func(spec kit.StoreSpec) (result, int, error) {
			w := kit.NewWorld(spec.New())
			done, err := outcomes(w, c.Steps, nil)
			if err != nil {
				return result{}, 0, err
			}
			w.Open()
			return result{done, readings(w, 0, false), readings(w, len(w.Graphs)-1, true)}, len(w.M.Remarks), nil
		}
		want, n, err := run(kit.StoreSpec{Kind: "mem"})
		if err != nil {
			return err
		}
		cov.Label("order " + c.Store.Order)
		cov.Label("number " + c.Store.Number)
		if n >= 3 && (c.Store.Order != "" || c.Store.Number != "") {
			cov.NonTrivial()
		}
		for _, spec := range []kit.StoreSpec{c.Store, {Kind: "clew"}} {
			got, _, err := run(spec)
			if err != nil {
				return err
			}
			if err := differ("operation", want.done, got.done); err != nil {
				return err
			}
			if err := differ("reading by handle of remark", want.handles, got.handles); err != nil {
				return err
			}
			if err := differ("reading by identifier of remark", want.fetched, got.fetched); err != nil {
				return err
			}
		}
		return nil
	},
}

func TestC14(t *testing.T) { kit.Run(t, "main", propC14) }
func FuzzC14(f *testing.F) { kit.Fuzz(f, "main", propC14) }
