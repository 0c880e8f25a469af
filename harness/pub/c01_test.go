package pub

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

type storeAndSteps struct {
	Store kit.StoreSpec `json:"store"`
	Steps []kit.Step    `json:"steps"`
}

// texts of every size and code point, and texts that overlap
func genC01(t *rapid.T) storeAndSteps {
	v := kit.DrawVocabulary(t)
	h := kit.History{Long: true, NoMass: true, Min: 1, Max: 6, Ops: kit.AllOps, ByID: true}
	text := func(label string) kit.Text {
		if kit.Int(0, 499).Draw(t, label+"Huge") == 499 {
			// a pattern, because drawing so much takes long
			n := kit.Int(200, 2500).Draw(t, label+"Times")
			w := kit.FreeText(t, 1, 3)
			last := kit.FreeText(t, 1, 2)
			switch kit.Int(0, 2).Draw(t, label+"Pattern") {
			case 0:
				return kit.Text(strings.Repeat(w, n) + last)
			case 1:
				return kit.Text(strings.Repeat(w+" ", n/2) + last)
			}
			parts := make([]string, n/4)
			for i := range parts {
				parts[i] = w + strconv.Itoa(i)
			}
			return kit.Text(strings.Join(parts, " "))
		}
		switch kit.Int(0, 9).Draw(t, label+"Source") {
		case 0, 1, 2, 3:
			return v.Draw(t, label)
		case 4:
			return kit.Text(kit.FreeText(t, 1, kit.One([]int{40, 40, 40, 300}).Draw(t, "runes"))) // long word
		case 5:
			return kit.Text(kit.FreeText(t, kit.One([]int{20, 20, 20, 150}).Draw(t, "words"), 2)) // long phrase
		case 6:
			// one word repeated: runs of the same rune, the same word
			w := kit.FreeText(t, 1, 2)
			if rapid.Bool().Draw(t, "runs") {
				return kit.Text(strings.Repeat(w, kit.Int(1, 80).Draw(t, "times")))
			}
			return kit.Text(strings.TrimSuffix(strings.Repeat(w+" ", kit.Int(1, 80).Draw(t, "times")), " "))
		default:
			return kit.Text(kit.FreeText(t, 3, 5))
		}
	}
	steps := h.Draw(t, v)
	for i := range steps {
		if steps[i].Op != "remark" {
			steps[i].O = text("o")
		}
		steps[i].P = text("p")
	}
	return storeAndSteps{kit.DrawStore(t, true, false), steps}
}

func labelTexts(cov *kit.Cov, steps []kit.Step) (wide, long bool) {
	for _, s := range steps {
		for _, x := range []string{string(s.O), string(s.P)} {
			for _, r := range x {
				switch {
				case r > 0xffff:
					cov.Label("rune>16bit")
				case r > 0x7f:
					cov.Label("rune>7bit")
				case r < 0x20:
					cov.Label("rune<5bit")
				}
				wide = wide || r > 0x7f
			}
			if n := strings.Count(x, " "); n > 0 {
				cov.Label("words>1")
				long = true
				if n >= 10 {
					cov.Label("words>10")
				}
				if n >= 250 {
					cov.Label("words>250")
				}
			}
			if len(x) > 2000 {
				cov.Label("bytes>2000")
			}
			if len(x) > 100 {
				cov.Label("bytes>100")
			}
		}
	}
	return
}

var propC01 = kit.Prop[storeAndSteps]{
	ID:   "C01",
	Rule: "a case stores 1-6 remarks with generated texts (all code point lengths, long words and phrases, overlapping vocabulary) and reads each back by handle, by identifier and on a reopened graph; non-trivial: some text has several words or a code point above 127, distinct by the whole case",
	Gen:  genC01,
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		wide, long := labelTexts(cov, c.Steps)
		if wide || long {
			cov.NonTrivial()
		}
		for i, s := range c.Steps {
			r, err := w.Add(s)
			if err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if r < 0 {
				continue
			}
			if err := w.CheckText(r, w.H[r]); err != nil {
				return fmt.Errorf("step %d, returned remark: %w", i, err)
			}
			h, err := w.Fetch(r, 0)
			if err != nil {
				return fmt.Errorf("step %d, fetching the returned remark: %w", i, err)
			}
			if err := w.CheckText(r, h); err != nil {
				return fmt.Errorf("step %d, fetched remark: %w", i, err)
			}
		}
		return w.CheckEvery(7, 0, w.CheckText)
	},
}

func TestC01(t *testing.T) {
	kit.Run(t, "main", propC01)
	kit.Run(t, "sweep", propSweep)
}

func FuzzC01(f *testing.F) {
	if os.Getenv("VERIF_PART") == "sweep" {
		kit.Fuzz(f, "sweep", propSweep)
		return
	}
	kit.Fuzz(f, "main", propC01)
}
