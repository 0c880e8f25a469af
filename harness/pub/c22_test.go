package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

type lawStep struct {
	kit.Step
	Fail   int  `json:"fail,omitempty"` // this access of the operation fails
	Last   int  `json:"last,omitempty"` // instead of Fail: this writing access counted from the end, 1 is the last one
	Sticky bool `json:"sticky,omitempty"`
	After  bool `json:"after,omitempty"`
	Number uint `json:"number,omitempty"` // for "try": taken for an identifier
}

type lawCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []lawStep     `json:"steps"`
}

// arm prepares the failure of step s.
func (s lawStep) arm(w *kit.World, writes int) {
	if s.Last > 0 {
		if k := writes + 1 - s.Last; k > 0 {
			w.Spy.ArmWrite(k, s.Sticky, s.After)
			return
		}
	}
	w.Spy.Arm(s.Fail, s.Sticky, s.After)
}

// writesOf tells how often an addition writes, from a trial on a copy.
func writesOf(w *kit.World, store *kit.Mem, s kit.Step) int {
	trial := kit.NewWorld(store.Clone())
	if s.Op == "story" {
		_, _ = callStory(trial, s)
		return trial.Spy.Written()
	}
	var h kit.Agg
	err := kit.Guard("GetRemark", func() error {
		r, err := trial.Graph(0).GetRemark(w.M.Remarks[w.Target(s)].ID)
		h = r.Aggregate
		return err
	})
	if err != nil {
		return 0
	}
	trial.Spy.Arm(0, false, false)
	_, _ = kit.CallOn(h, s)
	return trial.Spy.Written()
}

var propC22 = kit.Prop[lawCase]{
	ID:   "C22",
	Rule: "a case is a history of 2-14 additions with well-formed or broken texts, reads, arbitrary numbers used as identifiers, and opened graphs, any of which may meet a storage failure at any access, often at one of the last writing ones; every storage call is watched: nodes the storage has, no second reference, nothing removed, no write after a failed access; executions count the operations; non-trivial: an operation refused or broken off while content exists, and at least 2 remarks",
	Gen: func(t *rapid.T) lawCase {
		v := kit.DrawVocabulary(t)
		ops := []kit.Choice{{"story", 3}, {"remark", 4}, {"fact", 4}, {"child", 4}, {"open", 1}, {"try", 3}}
		for _, r := range readOps {
			ops = append(ops, kit.Choice{Name: r, Weight: 1})
		}
		h := kit.History{Long: true, NoMass: true, Min: 2, Max: 14, ByID: true, Graphs: 3, Ops: ops}
		c := lawCase{Store: kit.DrawStore(t, false, true)}
		for _, s := range h.Draw(t, v) {
			g := lawStep{Step: s}
			if s.Op == "try" {
				// a node of the storage, or any number
				switch kit.Int(0, 2).Draw(t, "numberKind") {
				case 0:
					g.Number = uint(kit.Int(0, 300).Draw(t, "number"))
				case 1:
					g.Number = uint(rapid.Uint64().Draw(t, "number"))
				}
				g.On = kit.Int(0, 400).Draw(t, "node")
			}
			switch kit.Int(0, 5).Draw(t, "trouble") {
			case 0:
				g.P = v.BrokenText(t)
			case 1:
				g.O = v.BrokenText(t)
			case 2:
				if rapid.Bool().Draw(t, "atTheEnd") && !isRead(s.Op) && s.Op != "try" {
					g.Last = kit.Int(1, 12).Draw(t, "last")
				} else {
					g.Fail = kit.Int(1, kit.One([]int{12, 60, 250}).Draw(t, "within")).Draw(t, "fail")
				}
				g.Sticky = rapid.Bool().Draw(t, "sticky")
				g.After = rapid.Bool().Draw(t, "after")
			}
			c.Steps = append(c.Steps, g)
		}
		return c
	},
	Exec: func(c lawCase, cov *kit.Cov) error {
		law := &kit.Lawful{Mem: kit.NewMem(c.Store)}
		w := kit.NewWorld(law)
		trouble := false
		for i, s := range c.Steps {
			if s.Op == "open" {
				w.Open()
				continue
			}
			if s.Op != "try" && !w.Runnable(s.Step) {
				continue
			}
			cov.Inner(1)
			var a kit.Agg
			var err error
			g := mod(s.G, len(w.Graphs))
			what := s.Show()
			writes := 0
			if s.Last > 0 {
				writes = writesOf(w, law.Mem, s.Step)
			}
			law.Lax = s.Op == "try" // whether a number is a node is for the storage to say
			switch s.Op {
			case "story":
				s.arm(w, writes)
				a, err = callStory(w, s.Step)
			case "try":
				n := s.Number
				if ids := law.IDs(); n == 0 && len(ids) > 0 {
					n = ids[mod(s.On, len(ids))]
				}
				what = fmt.Sprintf("GetRemark(%d)", n)
				w.Spy.Arm(s.Fail, s.Sticky, s.After)
				err = kit.Guard("GetRemark", func() error { _, err := w.Graph(g).GetRemark(n); return err })
			default:
				w.Spy.Arm(0, false, false)
				var h kit.Agg
				h, err = w.Handle(w.Target(s.Step), s.Via, s.G)
				if err == nil {
					s.arm(w, writes)
					if isRead(s.Op) {
						err = runRead(w, g, s.Op, h, w.M.Remarks[w.Target(s.Step)].ID)
					} else {
						a, err = kit.CallOn(h, s.Step)
					}
				}
			}
			fired, late := w.Spy.Fired, w.Spy.Late
			w.Spy.Disarm()
			if law.Breach != "" {
				return fmt.Errorf("step %d, %s: %s", i, what, law.Breach)
			}
			if late != "" {
				return fmt.Errorf("step %d, %s: %s after a failed access", i, what, late)
			}
			if fired {
				cov.Label("met a failure: " + s.Op)
			}
			if err != nil {
				trouble = trouble || len(w.M.Remarks) > 0
				continue
			}
			if a != nil {
				if _, err := w.Record(s.Step, a); err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
			}
		}
		if trouble && len(w.M.Remarks) >= 2 {
			cov.NonTrivial()
		}
		return nil
	},
}

func TestC22(t *testing.T) { kit.Run(t, "main", propC22) }
func FuzzC22(f *testing.F) { kit.Fuzz(f, "main", propC22) }
