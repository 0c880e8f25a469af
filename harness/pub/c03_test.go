package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// outcomes runs a history and gives what happened at each step.
func outcomes(w *kit.World, steps []kit.Step, each func(i int) error) ([]string, error) {
	var out []string
	for i, s := range steps {
		if s.Op == "open" {
			w.Open()
			continue
		}
		if !w.Runnable(s) {
			continue
		}
		if s.Op == "link" {
			if err := w.Link(w.Target(s)); err != nil {
				return out, err
			}
			continue
		}
		a, err := w.Call(s)
		switch {
		case kit.IsCrash(err):
			out = append(out, fmt.Sprintf("step %d crashes", i))
		case err != nil:
			out = append(out, fmt.Sprintf("step %d refused", i))
		default:
			if _, err := w.Record(s, a); err != nil {
				out = append(out, fmt.Sprintf("step %d gives no remark", i))
			} else {
				out = append(out, fmt.Sprintf("step %d done", i))
			}
		}
		if each != nil {
			if err := each(i); err != nil {
				return out, err
			}
		}
	}
	return out, nil
}

// readings lists everything that can be read at every remark through graph g.
func readings(w *kit.World, g int, byID bool) []string {
	var out []string
	for r := range w.M.Remarks {
		h := w.H[r]
		if byID {
			var err error
			h, err = w.Fetch(r, g)
			if err != nil {
				out = append(out, "cannot be fetched")
				continue
			}
		}
		out = append(out, w.Outcome(h, g, w.Index))
	}
	return out
}

func differ(what string, a, b []string) error {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			other := "nothing"
			if i < len(b) {
				other = b[i]
			}
			return fmt.Errorf("%s %d: %s instead of %s", what, i, other, a[i])
		}
	}
	if len(b) > len(a) {
		return fmt.Errorf("%s %d: %s instead of nothing", what, len(a), b[len(a)])
	}
	return nil
}

var propC03 = kit.Prop[storeAndSteps]{
	ID:   "C03",
	Rule: "a case is a history of 2-14 operations in which graphs are opened at any point, half of the time some before the first story, and every operation runs on any of the open graphs; it is compared step by step and reading by reading, and node by node, with the same history on one graph; non-trivial: an addition after content exists runs on a graph opened later",
	Gen: func(t *rapid.T) storeAndSteps {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, Min: 2, Max: 14, Graphs: 4, ByID: true,
			Ops: []kit.Choice{{"story", 2}, {"remark", 3}, {"fact", 3}, {"child", 3}, {"open", 4}}}
		c := storeAndSteps{kit.DrawStore(t, true, false), h.Draw(t, v)}
		// graphs that are open before the first story
		for i, n := 0, kit.Int(-2, 3).Draw(t, "before"); i < n; i++ {
			c.Steps = append([]kit.Step{{Op: "open"}}, c.Steps...)
		}
		return c
	},
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		one := kit.NewWorld(c.Store.New())
		var single []kit.Step
		for _, s := range c.Steps {
			s.G = 0
			if s.Op != "open" {
				single = append(single, s)
			}
		}
		want, err := outcomes(one, single, nil)
		if err != nil {
			return err
		}
		many := kit.NewWorld(c.Store.New())
		opens := 0
		var steps []kit.Step
		for _, s := range c.Steps {
			if s.Op == "open" {
				opens++
				cov.Label("open")
			} else if s.G != 0 && opens > 0 && len(steps) > 0 && (s.Via == 1 || s.Op == "story") {
				cov.NonTrivial()
				cov.Label("addition on another graph")
			}
			steps = append(steps, s)
		}
		// outcomes number steps without the opens
		var plain []string
		n := 0
		for _, s := range steps {
			got, err := outcomes(many, []kit.Step{s}, nil)
			if err != nil {
				return err
			}
			for _, x := range got {
				plain = append(plain, fmt.Sprintf("step %d%s", n, x[len("step 0"):]))
			}
			if s.Op != "open" {
				n++
			}
		}
		if err := differ("operation", want, plain); err != nil {
			return err
		}
		if c.Store.Kind == "mem" {
			if d := one.Spy.Mem().Diff(many.Spy.Mem()); d != "" {
				return fmt.Errorf("storage after several graphs differs from one graph: %s", d)
			}
		}
		many.Open()
		reference := readings(one, 0, false)
		if err := differ("reading by handle of remark", reference, readings(many, 0, false)); err != nil {
			return err
		}
		for g := range many.Graphs {
			if err := differ(fmt.Sprintf("reading through graph %d of remark", g), reference, readings(many, g, true)); err != nil {
				return err
			}
		}
		return nil
	},
}

func TestC03(t *testing.T) { kit.Run(t, "main", propC03) }
func FuzzC03(f *testing.F) { kit.Fuzz(f, "main", propC03) }
