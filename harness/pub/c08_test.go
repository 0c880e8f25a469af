package pub

import (
	"fmt"
	"testing"
	"unicode/utf8"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

var propC08 = kit.Prop[storeAndSteps]{
	ID:   "C08",
	Rule: "a case is a history of 1-12 operations whose texts are well-formed, have an empty word, or are arbitrary bytes; a text with an empty word must be refused, nothing may panic, after each refused call everything reads as before by handle, by identifier and on a reopened graph, and well-formed calls in between still work; non-trivial: a refused call while content exists, followed by an accepted one",
	Gen: func(t *rapid.T) storeAndSteps {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, NoMass: true, Min: 1, Max: 12, Ops: kit.AllOps, ByID: true}
		steps := h.Draw(t, v)
		text := func(x *kit.Text) {
			switch kit.Int(0, 9).Draw(t, "damage") {
			case 0, 1, 2:
				*x = v.BrokenText(t)
			case 3:
				*x = kit.Text(rapid.SliceOfN(kit.One([]byte{0, ' ', 'a', 0x80, 0xbf, 0xc3, 0xed, 0xa0, 0xf4, 0xff}), 0, 6).Draw(t, "bytes"))
			case 4:
				*x = kit.Text(rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "bytes"))
			}
		}
		for i := range steps {
			if steps[i].Op != "remark" {
				text(&steps[i].O)
			}
			text(&steps[i].P)
		}
		return storeAndSteps{kit.DrawStore(t, true, false), steps}
	},
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		refused := false
		for i, s := range c.Steps {
			if !w.Runnable(s) {
				continue
			}
			texts := []kit.Text{s.P}
			if s.Op != "remark" {
				texts = append(texts, s.O)
			}
			broken, valid := false, true
			for _, x := range texts {
				broken = broken || x.HasEmptyWord()
				valid = valid && utf8.ValidString(string(x))
			}
			a, err := w.Call(s)
			switch {
			case kit.IsCrash(err):
				return fmt.Errorf("step %d, %s: %w", i, s.Show(), err)
			case broken && err == nil:
				return fmt.Errorf("step %d: %s was accepted", i, s.Show())
			case !broken && valid && err != nil:
				return fmt.Errorf("step %d: %s was refused: %w", i, s.Show(), err)
			}
			if err != nil {
				cov.Label("refused " + s.Op)
				refused = refused || len(w.M.Remarks) > 0
				if err := w.CheckEvery(7, 0, func(r int, h kit.Agg) error { return w.CheckAll(r, h, 0) }); err != nil {
					return fmt.Errorf("after refused step %d, %s: %w", i, s.Show(), err)
				}
				continue
			}
			if refused {
				cov.NonTrivial()
			}
			cov.Label("accepted " + s.Op)
			if !valid {
				// outside the text domain: whatever is stored is only expected to stay
				cov.Label("accepted bytes that are not UTF-8")
				o, p, err := kit.Texts(a)
				if kit.IsCrash(err) {
					return fmt.Errorf("after step %d, %s: %w", i, s.Show(), err)
				}
				if s.Op != "remark" {
					s.O = kit.Text(o)
				}
				s.P = kit.Text(p)
			}
			r, err := w.Record(s, a)
			if err != nil {
				return fmt.Errorf("step %d, %s: %w", i, s.Show(), err)
			}
			if err := w.CheckAll(r, w.H[r], 0); err != nil {
				return fmt.Errorf("step %d, %s: %w", i, s.Show(), err)
			}
		}
		return w.CheckEvery(7, 0, func(r int, h kit.Agg) error { return w.CheckAll(r, h, 0) })
	},
}

func TestC08(t *testing.T) { kit.Run(t, "main", propC08) }
func FuzzC08(f *testing.F) { kit.Fuzz(f, "main", propC08) }
