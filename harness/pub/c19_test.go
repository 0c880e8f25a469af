package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// growCase is a history of operations, possibly with broken text, reads, or
// broken off.
type growCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []lawStep     `json:"steps"`
}

var propC19 = kit.Prop[growCase]{
	ID:   "C19",
	Rule: "a case is a history of 2-14 additions with well-formed or broken texts, reads, and opened graphs, any of which may be broken off at any storage access, often at one of the last writing ones, before or after it takes effect; after every operation every node, link and reference that was there before must be there unchanged; non-trivial: an operation refused or broken off while content exists, and at least 2 remarks",
	Gen: func(t *rapid.T) growCase {
		v := kit.DrawVocabulary(t)
		ops := []kit.Choice{{"story", 3}, {"remark", 4}, {"fact", 4}, {"child", 4}, {"open", 1}}
		for _, r := range readOps {
			ops = append(ops, kit.Choice{Name: r, Weight: 1})
		}
		h := kit.History{Long: true, Min: 2, Max: 14, ByID: true, Graphs: 3, Ops: ops}
		c := growCase{Store: kit.DrawStore(t, false, true)}
		for _, s := range h.Draw(t, v) {
			g := lawStep{Step: s}
			switch kit.Int(0, 5).Draw(t, "trouble") {
			case 0:
				g.P = v.BrokenText(t)
			case 1:
				g.O = v.BrokenText(t)
			case 2:
				if rapid.Bool().Draw(t, "atTheEnd") && !isRead(s.Op) {
					g.Last = kit.Int(1, 12).Draw(t, "last")
				} else {
					g.Fail = kit.Int(1, kit.One([]int{12, 60, 250}).Draw(t, "within")).Draw(t, "fail")
				}
				g.Sticky = rapid.Bool().Draw(t, "sticky")
				g.After = rapid.Bool().Draw(t, "after")
			}
			c.Steps = append(c.Steps, g)
		}
		return c
	},
	Exec: func(c growCase, cov *kit.Cov) error {
		w := kit.NewWorld(kit.NewMem(c.Store))
		trouble := false
		for i, s := range c.Steps {
			if s.Op == "open" {
				w.Open()
				continue
			}
			if !w.Runnable(s.Step) {
				continue
			}
			before := w.Spy.Mem().Clone()
			var a kit.Agg
			var err error
			writes := 0
			if s.Last > 0 {
				writes = writesOf(w, w.Spy.Mem(), s.Step)
			}
			if s.Op == "story" {
				s.arm(w, writes)
				st := s.Step
				a, err = callStory(w, st)
			} else {
				w.Spy.Arm(0, false, false)
				var h kit.Agg
				h, err = w.Handle(w.Target(s.Step), s.Via, s.G)
				if err == nil {
					s.arm(w, writes)
					if isRead(s.Op) {
						err = runRead(w, mod(s.G, len(w.Graphs)), s.Op, h, w.M.Remarks[w.Target(s.Step)].ID)
					} else {
						a, err = kit.CallOn(h, s.Step)
					}
				}
			}
			fired := w.Spy.Fired
			w.Spy.Disarm()
			if d := before.Lost(w.Spy.Mem()); d != "" {
				how := "done"
				if fired {
					how = "broken off"
				} else if err != nil {
					how = "refused"
				}
				return fmt.Errorf("step %d, %s %s: %s", i, s.Show(), how, d)
			}
			if fired {
				cov.Label("broken off")
			}
			if err != nil {
				trouble = trouble || len(w.M.Remarks) > 0
				continue
			}
			if !isRead(s.Op) {
				if _, err := w.Record(s.Step, a); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
			}
		}
		if trouble && len(w.M.Remarks) >= 2 {
			cov.NonTrivial()
		}
		return nil
	},
}

func TestC19(t *testing.T) { kit.Run(t, "main", propC19) }
func FuzzC19(f *testing.F) { kit.Fuzz(f, "main", propC19) }
