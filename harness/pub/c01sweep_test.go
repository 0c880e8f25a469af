package pub

import (
	"fmt"
	"strings"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// sweepCase is a block of code points, all of them in one text.
type sweepCase struct {
	From int `json:"from"`
	Size int `json:"size"`
	// Form: 0 one word, 1 each a word, 2 words of two alike at the front, 3 at the
	// back, 4 a text for each
	Form int           `json:"form"`
	Base kit.Text      `json:"base"`
	Mem  kit.StoreSpec `json:"store"`
}

func (c sweepCase) texts() []string {
	var rs []rune
	for i := 0; i < c.Size; i++ {
		r := rune(c.From + i)
		if r == ' ' || r >= 0xd800 && r <= 0xdfff || r > 0x10ffff {
			continue
		}
		rs = append(rs, r)
	}
	if len(rs) == 0 {
		return nil
	}
	if c.Form == 0 {
		return []string{string(rs)}
	}
	var ws []string
	for _, r := range rs {
		switch c.Form {
		case 2:
			ws = append(ws, string(c.Base)+string(r))
		case 3:
			ws = append(ws, string(r)+string(c.Base))
		default:
			ws = append(ws, string(r))
		}
	}
	if c.Form == 4 {
		return ws
	}
	return []string{strings.Join(ws, " ")}
}

// propSweep is C01 for blocks of code points.
var propSweep = kit.Prop[sweepCase]{
	ID:   "C01",
	Rule: "a case is a block of 64 code points anywhere in Unicode, stored as one word, as a word each, as words with a common beginning or end, or as a text each, and read back; non-trivial: all",
	Gen: func(t *rapid.T) sweepCase {
		c := sweepCase{Size: 64, Form: kit.Int(0, 4).Draw(t, "form"), Mem: kit.DrawStore(t, false, false)}
		// the lower planes have most of what is special
		c.From = 64 * kit.Int(0, kit.One([]int{31, 0x3ff, 0x3ff, 0x7ff, 0x43ff}).Draw(t, "upTo")).Draw(t, "block")
		c.Base = kit.Text(kit.FreeText(t, 1, 2))
		return c
	},
	Exec: func(c sweepCase, cov *kit.Cov) error {
		texts := c.texts()
		if texts == nil {
			return nil
		}
		cov.NonTrivial()
		cov.Label(fmt.Sprintf("plane %d", c.From>>16))
		w := kit.NewWorld(kit.NewMem(c.Mem))
		for i, x := range texts {
			s := kit.Step{Op: "story", O: kit.Text(x), P: c.Base}
			if i%2 == 1 {
				s.O, s.P = s.P, s.O
			}
			r, err := w.Add(s)
			if err != nil {
				return err
			}
			if err := w.CheckText(r, w.H[r]); err != nil {
				return err
			}
		}
		return w.CheckEvery(4, 0, w.CheckText)
	},
}
