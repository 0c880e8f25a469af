package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

type readCase struct {
	Store   kit.StoreSpec `json:"store"`
	Steps   []kit.Step    `json:"steps"`
	Reads   []readStep    `json:"reads"`
	Numbers []uint        `json:"numbers"` // tried as identifiers
}

// readStep is one read. Fail makes that access of the read fail, 0 none.
type readStep struct {
	Op    string `json:"op"`
	On    int    `json:"on"`
	Fresh bool   `json:"fresh"`
	Fail  int    `json:"fail"`
}

var propC11 = kit.Prop[readCase]{
	ID:   "C11",
	Rule: "a case is a history of 1-9 additions and then reads of every kind on every remark, on the used and on freshly opened graphs, plus generated reads some of which meet a storage failure and numbers that may not be identifiers; no write may get through to the storage, which is also compared node by node after every read; executions count the reads; non-trivial: at least 3 remarks",
	Gen: func(t *rapid.T) readCase {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, NoMass: true, Min: 1, Max: 9, ByID: true, Ops: []kit.Choice{{"story", 2}, {"remark", 3}, {"fact", 3}, {"child", 3}, {"link", 2}}}
		c := readCase{Store: kit.DrawStore(t, false, true), Steps: h.Draw(t, v)}
		for i, n := 0, kit.Int(0, 6).Draw(t, "reads"); i < n; i++ {
			c.Reads = append(c.Reads, readStep{
				Op:    kit.One(readOps).Draw(t, "read"),
				On:    kit.Int(0, 9).Draw(t, "on"),
				Fresh: rapid.Bool().Draw(t, "fresh"),
				Fail:  kit.Int(0, 20).Draw(t, "fail"),
			})
		}
		c.Numbers = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) uint {
			return uint(kit.Int(0, 300).Draw(t, "number"))
		}), 0, 5).Draw(t, "numbers")
		return c
	},
	Exec: func(c readCase, cov *kit.Cov) error {
		w := kit.NewWorld(kit.NewMem(c.Store))
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		}
		if len(w.M.Remarks) >= 3 {
			cov.NonTrivial()
		}
		labelOps(cov, c.Steps)
		before := w.Spy.Mem().Clone()
		written := w.Spy.Writes
		reads := 0
		read := func(op string, on, g, fail int) error {
			reads++
			w.Spy.Arm(0, false, false)
			h := w.H[on]
			if g > 0 && op != "get" {
				a, err := w.Fetch(on, g)
				if err != nil {
					return fmt.Errorf("fetching remark #%d: %w", on, err)
				}
				h = a
			}
			w.Spy.Arm(fail, false, false)
			runRead(w, g, op, h, w.M.Remarks[on].ID) // result is for other properties
			w.Spy.Disarm()
			if w.Spy.Writes != written {
				return fmt.Errorf("reading (%s, access %d failing) remark #%d on graph %d wrote to the storage %d times", op, fail, on, g, w.Spy.Writes-written)
			}
			if d := before.Diff(w.Spy.Mem()); d != "" {
				return fmt.Errorf("reading (%s, access %d failing) remark #%d on graph %d changed the storage: %s", op, fail, on, g, d)
			}
			return nil
		}
		for r := range w.M.Remarks {
			for _, op := range readOps {
				if err := read(op, r, 0, 0); err != nil {
					return err
				}
				w.Open()
				if err := read(op, r, len(w.Graphs)-1, 0); err != nil {
					return err
				}
				w.Graphs = w.Graphs[:1]
			}
		}
		for _, s := range c.Reads {
			g := 0
			if s.Fresh {
				w.Open()
				g = len(w.Graphs) - 1
			}
			if err := read(s.Op, mod(s.On, len(w.M.Remarks)), g, s.Fail); err != nil {
				return err
			}
			if s.Fail > 0 {
				cov.Label("read meets a failure")
			}
		}
		for _, n := range c.Numbers {
			w.Open()
			for _, g := range []int{0, len(w.Graphs) - 1} {
				reads++
				w.Spy.Arm(0, false, false)
				kit.Guard("GetRemark", func() error { _, err := w.Graph(g).GetRemark(n); return err })
				if w.Spy.Writes != written {
					return fmt.Errorf("GetRemark(%d) wrote to the storage", n)
				}
				if d := before.Diff(w.Spy.Mem()); d != "" {
					return fmt.Errorf("GetRemark(%d) changed the storage: %s", n, d)
				}
			}
		}
		cov.Inner(reads)
		return nil
	},
}

func TestC11(t *testing.T) { kit.Run(t, "main", propC11) }
func FuzzC11(f *testing.F) { kit.Fuzz(f, "main", propC11) }
