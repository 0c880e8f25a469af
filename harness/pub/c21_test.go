package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// effortCase is a history, and another one with no text in common with it.
type effortCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []kit.Step    `json:"steps"`
	Other []kit.Step    `json:"other"`
	Times int           `json:"times"` // the other history is made that often
	Fresh bool          `json:"fresh"` // each operation on a freshly opened graph
}

// apart maps a text to one over another part of the code points.
func apart(x kit.Text, other bool) kit.Text {
	out := []rune(string(x))
	for i, r := range out {
		switch {
		case r == ' ':
		case other:
			out[i] = 0x20000 + r%0x4000
		case r >= 0x20000 && r < 0x24000:
			out[i] = r + 0x4000
		}
	}
	return kit.Text(string(out))
}

// efforts runs the history and tells the effort of every addition and of every
// reading of every remark at the end.
func efforts(w *kit.World, steps []kit.Step, fresh bool) (names []string, out []int, err error) {
	g := 0
	for i, s := range steps {
		if !w.Runnable(s) {
			continue
		}
		if s.Op == "link" {
			if _, err := w.Add(s); err != nil {
				return nil, nil, err
			}
			continue
		}
		var h kit.Agg
		if fresh {
			w.Graphs = w.Graphs[:1]
			w.Open()
			g = 1
		}
		var a kit.Agg
		if s.Op == "story" {
			s.G = g
			w.Spy.Arm(0, false, false)
			a, err = callStory(w, s)
		} else {
			h, err = w.Fetch(w.Target(s), g)
			if err != nil {
				return nil, nil, fmt.Errorf("step %d: %w", i, err)
			}
			w.Spy.Arm(0, false, false)
			a, err = kit.CallOn(h, s)
		}
		if err != nil {
			return nil, nil, fmt.Errorf("step %d, %s: %w", i, s.Show(), err)
		}
		names, out = append(names, fmt.Sprintf("step %d, %s", i, s.Show())), append(out, w.Spy.Effort)
		if _, err := w.Record(s, a); err != nil {
			return nil, nil, fmt.Errorf("step %d: %w", i, err)
		}
	}
	for r := range w.M.Remarks {
		for _, op := range readOps {
			if fresh {
				w.Graphs = w.Graphs[:1]
				w.Open()
				g = 1
			}
			h, err := w.Fetch(r, g)
			if err != nil {
				return nil, nil, fmt.Errorf("remark #%d: %w", r, err)
			}
			w.Spy.Arm(0, false, false)
			err = runRead(w, g, op, h, w.M.Remarks[r].ID)
			if kit.IsCrash(err) {
				return nil, nil, fmt.Errorf("%s of remark #%d: %w", op, r, err)
			}
			names, out = append(names, fmt.Sprintf("%s of remark #%d", op, r)), append(out, w.Spy.Effort)
		}
	}
	return
}

var propC21 = kit.Prop[effortCase]{
	ID:   "C21",
	Rule: "a case is a history of 1-8 additions and another history without any character in common, made 1-30 times before it in the same storage (up to 300 additions); the effort (storage accesses and nodes listed by them) of every addition and every reading of the first history may exceed the effort without the other by half and 20 at most, and may not grow when the other is repeated (tolerance a tenth and 8); non-trivial: at least 3 remarks and at least 20 unrelated additions",
	Gen: func(t *rapid.T) effortCase {
		ops := []kit.Choice{{"story", 2}, {"remark", 3}, {"fact", 3}, {"child", 3}, {"link", 2}}
		v := kit.DrawVocabulary(t)
		h := kit.History{Min: 1, Max: 8, Ops: ops}
		c := effortCase{Store: kit.DrawStore(t, false, false), Steps: h.Draw(t, v)}
		u := kit.DrawVocabulary(t)
		o := kit.History{Long: true, Min: 2, Max: 12, Ops: kit.AllOps}
		c.Other = o.Draw(t, u)
		for i := range c.Other {
			c.Other[i].O = apart(c.Other[i].O, true)
			c.Other[i].P = apart(c.Other[i].P, true)
		}
		for i := range c.Steps {
			c.Steps[i].O = apart(c.Steps[i].O, false)
			c.Steps[i].P = apart(c.Steps[i].P, false)
		}
		c.Times = kit.Int(1, max(1, min(30, 300/len(c.Other)))).Draw(t, "times")
		c.Fresh = rapid.Bool().Draw(t, "fresh")
		return c
	},
	Exec: func(c effortCase, cov *kit.Cov) error {
		alone := kit.NewWorld(kit.NewMem(c.Store))
		names, want, err := efforts(alone, c.Steps, c.Fresh)
		if err != nil {
			return err
		}
		if len(alone.M.Remarks) >= 3 && len(c.Other)*c.Times >= 20 {
			cov.NonTrivial()
		}
		// after makes the other history a number of times, then this one.
		after := func(times int) ([]int, int, error) {
			first := kit.NewWorld(kit.NewMem(c.Store))
			n := 0
			for i := 0; i < times; i++ {
				first.M, first.H = &kit.Model{}, nil
				for j, s := range c.Other {
					if _, err := first.Add(s); err != nil {
						return nil, 0, fmt.Errorf("other history, step %d: %w", j, err)
					}
					n++
				}
			}
			w := &kit.World{Spy: first.Spy, Graphs: first.Graphs, M: &kit.Model{}}
			_, got, err := efforts(w, c.Steps, c.Fresh)
			if err == nil && len(got) != len(want) {
				err = fmt.Errorf("%d remarks after an unrelated history, %d alone", len(got), len(want))
			}
			return got, n, err
		}
		once, n, err := after(1)
		if err != nil {
			return err
		}
		for i := range want {
			// the other texts may branch off at the bits of a character
			if once[i] > want[i]+want[i]/2+20 {
				return fmt.Errorf("%s takes %d accesses and listed nodes, but %d after %d unrelated additions", names[i], want[i], once[i], n)
			}
		}
		if c.Times > 1 {
			many, m, err := after(c.Times)
			if err != nil {
				return err
			}
			for i := range want {
				if many[i] > once[i]+once[i]/10+8 {
					return fmt.Errorf("%s takes %d accesses and listed nodes after %d unrelated additions, but %d after %d of the same texts", names[i], once[i], n, many[i], m)
				}
			}
			cov.Inner(1)
		}
		cov.Inner(1)
		switch total := len(c.Other) * c.Times; {
		case total >= 100:
			cov.Label("at least 100 unrelated additions")
		case total >= 20:
			cov.Label("20 to 99 unrelated additions")
		}
		return nil
	},
}

func TestC21(t *testing.T) { kit.Run(t, "main", propC21) }
func FuzzC21(f *testing.F) { kit.Fuzz(f, "main", propC21) }
