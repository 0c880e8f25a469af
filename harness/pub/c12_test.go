package pub

import (
	"fmt"
	"math"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

type idCase struct {
	Store   kit.StoreSpec `json:"store"`
	Steps   []kit.Step    `json:"steps"`
	Numbers []uint64      `json:"numbers"`
	Early   bool          `json:"early,omitempty"` // numbers are asked for before they are given out, too
}

var propC12 = kit.Prop[idCase]{
	ID:   "C12",
	Rule: "a case is a history of 0-8 additions, some of them refused for an empty word; identifiers must be distinct and the same by handle, by fetching and by every way of navigation, and every node of the storage (on the clew storage every position), and generated numbers up to the largest, must be refused as identifiers by used and fresh graphs unless they are remarks, in one case of four also before they are given out; executions count the numbers tried; non-trivial: at least 2 remarks",
	Gen: func(t *rapid.T) idCase {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, Min: 0, Max: 8, ByID: true, Ops: kit.AllOps}
		steps := h.Draw(t, v)
		for i := range steps {
			switch kit.Int(0, 9).Draw(t, "damage") {
			case 0:
				if steps[i].Op != "remark" {
					steps[i].O = v.BrokenText(t)
				}
			case 1:
				steps[i].P = v.BrokenText(t)
			}
		}
		return idCase{
			kit.DrawStore(t, true, true),
			steps,
			rapid.SliceOfN(rapid.Custom(func(t *rapid.T) uint64 {
				switch kit.Int(0, 2).Draw(t, "kind") {
				case 0:
					return uint64(kit.Int(0, 100).Draw(t, "small"))
				case 1:
					return uint64(math.MaxUint64) - uint64(kit.Int(0, 9).Draw(t, "top"))
				}
				return rapid.Uint64().Draw(t, "any")
			}), 0, 6).Draw(t, "numbers"),
			kit.Int(0, 3).Draw(t, "early") == 3,
		}
	},
	Exec: func(c idCase, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		stable := func(r int, h kit.Agg) error {
			id, err := kit.ID(h)
			if err != nil {
				return fmt.Errorf("remark #%d: %w", r, err)
			}
			if id != w.M.Remarks[r].ID {
				return fmt.Errorf("remark #%d has identifier %d, had %d", r, id, w.M.Remarks[r].ID)
			}
			if err := w.CheckFirstFact(r, h); err != nil {
				return err
			}
			if err := w.CheckNextFact(r, h); err != nil {
				return err
			}
			return w.CheckNextStory(r, h)
		}
		refused := func(n uint, g int) error {
			cov.Inner(1)
			w.Spy.Arm(0, false, false)
			err := kit.Guard("GetRemark", func() error { _, err := w.Graph(g).GetRemark(n); return err })
			if kit.IsCrash(err) {
				return fmt.Errorf("identifier %d: %w", n, err)
			}
			if err == nil {
				return fmt.Errorf("identifier %d, which is no remark, is accepted", n)
			}
			return nil
		}
		for i, s := range c.Steps {
			if c.Early && i < 30 {
				var coming []uint
				if mem, ok := w.Spy.Inner.(*kit.Mem); ok {
					coming = mem.Coming(250)
				} else {
					top := uint(100)
					for _, m := range w.M.Remarks {
						top = max(top, m.ID)
					}
					for n := top + 1; n < top+600; n++ {
						coming = append(coming, n)
					}
				}
				for _, n := range coming {
					if err := refused(n, 0); err != nil {
						return fmt.Errorf("before step %d: %w", i, err)
					}
				}
			}
			if s.O.HasEmptyWord() && s.Op != "remark" || s.P.HasEmptyWord() {
				if !w.Runnable(s) {
					continue
				}
				a, err := w.Call(s)
				if kit.IsCrash(err) {
					return fmt.Errorf("step %d, %s: %w", i, s.Show(), err)
				}
				if err != nil {
					cov.Label("refused " + s.Op)
				} else if _, err := w.Record(s, a); err != nil {
					return fmt.Errorf("step %d, %s: %w", i, s.Show(), err)
				}
				continue
			}
			r, err := w.Add(s)
			if err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if r < 0 {
				continue
			}
			for q := 0; q < r; q++ {
				if w.M.Remarks[q].ID == w.M.Remarks[r].ID {
					return fmt.Errorf("remarks #%d and #%d have the same identifier %d", q, r, w.M.Remarks[r].ID)
				}
			}
			if !kit.Due(i, len(c.Steps)) {
				continue
			}
			if err := w.CheckEvery(3, 0, stable); err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
		}
		if err := w.CheckEvery(4, 0, stable); err != nil {
			return err
		}
		if len(w.M.Remarks) >= 2 {
			cov.NonTrivial()
		}
		var numbers []uint
		mem, isMem := w.Spy.Inner.(*kit.Mem)
		var before *kit.Mem
		if isMem {
			before = mem.Clone()
			numbers = append(mem.IDs(), 0)
		} else {
			// every position of the clew storage: nodes and arrows and beyond
			top := uint(60)
			for _, m := range w.M.Remarks {
				top = max(top, m.ID+300)
			}
			for n := uint(0); n < top; n++ {
				numbers = append(numbers, n)
			}
		}
		for _, n := range c.Numbers {
			numbers = append(numbers, uint(n))
		}
		w.Open()
		fresh := len(w.Graphs) - 1
		for _, n := range numbers {
			if w.Index(n) >= 0 {
				continue
			}
			for _, g := range []int{0, fresh} {
				if err := refused(n, g); err != nil {
					return err
				}
			}
		}
		if isMem {
			cov.Label("storage mem " + c.Store.Number)
			// an empty storage may be prepared at the first use
			if d := before.Diff(mem); d != "" && len(w.M.Remarks) > 0 {
				return fmt.Errorf("refused identifiers changed the storage: %s", d)
			}
		} else {
			cov.Label("storage clew")
		}
		return w.CheckEvery(2, 0, func(r int, h kit.Agg) error { return w.CheckAll(r, h, 0) })
	},
}

func TestC12(t *testing.T) { kit.Run(t, "main", propC12) }
func FuzzC12(f *testing.F) { kit.Fuzz(f, "main", propC12) }
