package pub

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// growthCase is a story that goes on with one unit of steps again and again, or a
// text that does. The sharp sign in a text stands for a character of its own in
// every repetition.
type growthCase struct {
	Store kit.StoreSpec `json:"store"`
	Kind  string        `json:"kind"` // steps, word or phrase
	First kit.Step      `json:"first"`
	Unit  []kit.Step    `json:"unit"`
	N     int           `json:"n"`
	Last  kit.Step      `json:"last"`
	Place int           `json:"place"` // of the remark worked on: 0 the first one, else 1-3 (modulo 3) the middle, the end, the start
	Step  int           `json:"step"`  // plus that modulo 6, divided by 6 it is the step in the repetition
	Fresh bool          `json:"fresh"`
}

func numbered(x kit.Text, i int) kit.Text {
	return kit.Text(strings.ReplaceAll(string(x), "#", string(rune(0x9a000+i))))
}

func repeated(x kit.Text, kind string, n int) kit.Text {
	switch kind {
	case "word":
		return kit.Text(strings.Repeat(strings.ReplaceAll(string(x), " ", ""), n))
	case "phrase":
		return kit.Text(strings.TrimSuffix(strings.Repeat(string(x)+" ", n), " "))
	}
	return x
}

// growth makes the history with n repetitions and tells the effort of operations on
// a remark of it. constant tells which of them must not depend on n.
func growth(c growthCase, n int) (names []string, out []int, constant []bool, remarks int, err error) {
	w := kit.NewWorld(kit.NewMem(c.Store))
	note := func(name string, fixed bool) {
		names, out, constant = append(names, name), append(out, w.Spy.Effort), append(constant, fixed)
	}
	on := 0
	first := c.First
	first.O, first.P = repeated(first.O, c.Kind, n), repeated(first.P, c.Kind, n)
	if c.Kind != "steps" {
		first.O, first.P = numbered(first.O, 999), numbered(first.P, 999)
	}
	if _, err = w.Add(first); err != nil {
		return
	}
	note("the first story", c.Kind == "steps")
	if c.Kind == "steps" {
		for i := 0; i < n; i++ {
			for j, s := range c.Unit {
				s.O, s.P = numbered(s.O, i), numbered(s.P, i)
				var r int
				if r, err = w.Add(s); err != nil {
					err = fmt.Errorf("repetition %d: %w", i, err)
					return
				}
				if c.Place > 0 && i == []int{0, n / 2, n - 6}[c.Place%3]+c.Step%6 && j == c.Step/6%len(c.Unit) && r >= 0 {
					on = r
				}
			}
		}
	}
	remarks = len(w.M.Remarks)
	g := 0
	open := func() (kit.Agg, error) {
		if c.Fresh {
			w.Graphs = w.Graphs[:1]
			w.Open()
			g = 1
		}
		return w.Fetch(on, g)
	}
	for _, op := range readOps {
		var h kit.Agg
		if h, err = open(); err != nil {
			return
		}
		w.Spy.Arm(0, false, false)
		if err = runRead(w, g, op, h, w.M.Remarks[on].ID); kit.IsCrash(err) {
			err = fmt.Errorf("%s: %w", op, err)
			return
		}
		err = nil
		note(op, c.Kind == "steps" && op != "render")
	}
	base := w.Spy.Mem()
	for _, op := range []string{"story", "remark", "fact", "child"} {
		w.Spy.Inner = base.Clone()
		w.Graphs = nil
		w.Open()
		if !c.Fresh {
			if err = warm(w, 0); err != nil {
				return
			}
		}
		s := c.Last
		s.Op, s.O, s.P = op, numbered(repeated(s.O, c.Kind, n), n), numbered(repeated(s.P, c.Kind, n), n)
		var h kit.Agg
		if h, err = w.Fetch(on, 0); err != nil {
			return
		}
		w.Spy.Arm(0, false, false)
		if op == "story" {
			s.G = 0
			_, err = callStory(w, s)
		} else {
			_, err = kit.CallOn(h, s)
		}
		if err != nil {
			err = fmt.Errorf("adding a %s: %w", op, err)
			return
		}
		note("adding a "+op, false)
	}
	return
}

var propC24 = kit.Prop[growthCase]{
	ID:   "C24",
	Rule: "a case is a story continued by a unit of 1-3 additions made n, 2n and 4n times (n 12), or a text repeated as often, and a remark of it; the effort (storage accesses and nodes listed by them) of every reading but rendering, at unchanged texts, may not grow from 2n to 4n (tolerance a fifth and 12), that of rendering and of the four additions, and of everything when the text grows, may grow from 2n to 4n at most 2.3 times as much as from n to 2n (tolerance 100 and a tenth); non-trivial: at least 20 remarks at 4n, or a text of at least 40 characters",
	Gen: func(t *rapid.T) growthCase {
		v := kit.DrawVocabulary(t)
		text := func(label string) kit.Text {
			x := v.Draw(t, label)
			switch kit.Int(0, 3).Draw(t, label+"Own") {
			case 0:
				return x + "#"
			case 1:
				return x + " #"
			case 2:
				return "#" + x
			}
			return x
		}
		c := growthCase{Store: kit.DrawStore(t, false, false)}
		c.Kind = kit.One([]string{"steps", "steps", "steps", "steps", "word", "phrase"}).Draw(t, "kind")
		c.First = kit.Step{Op: "story", O: text("o"), P: text("p")}
		c.Last = kit.Step{O: text("lastO"), P: text("lastP")}
		c.N = 12
		c.Place = kit.Int(0, 6).Draw(t, "place")
		c.Step = kit.Int(0, 17).Draw(t, "step")
		c.Fresh = rapid.Bool().Draw(t, "fresh")
		if c.Kind != "steps" {
			return c
		}
		for i, n := 0, kit.Int(1, 3).Draw(t, "unit"); i < n; i++ {
			s := kit.Step{Op: kit.One([]string{"story", "remark", "remark", "fact", "fact", "child", "child", "link"}).Draw(t, "op")}
			if s.Op != "story" {
				s.On = kit.One([]int{0, 0, -1, -1, -2, -3, 1}).Draw(t, "on")
			}
			if s.Op != "link" {
				s.P = text("p")
			}
			if s.Op == "story" || s.Op == "fact" || s.Op == "child" {
				s.O = text("o")
			}
			c.Unit = append(c.Unit, s)
		}
		return c
	},
	Exec: func(c growthCase, cov *kit.Cov) error {
		var efforts [3][]int
		var names []string
		var constant []bool
		for i, n := range []int{c.N, 2 * c.N, 4 * c.N} {
			var remarks int
			var err error
			names, efforts[i], constant, remarks, err = growth(c, n)
			if err != nil {
				return fmt.Errorf("%d repetitions: %w", n, err)
			}
			cov.Inner(1)
			if i == 2 && (remarks >= 20 || len(repeated(c.First.O, c.Kind, n)) >= 40) {
				cov.NonTrivial()
			}
		}
		cov.Label(c.Kind)
		for i, name := range names {
			a, b, d := efforts[0][i], efforts[1][i], efforts[2][i]
			if constant[i] {
				if d > b+b/5+12 {
					return fmt.Errorf("%s takes %d accesses and listed nodes after %d repetitions, but %d after %d", name, b, 2*c.N, d, 4*c.N)
				}
				continue
			}
			if d-b > 23*max(b-a, 0)/10+100+a/10 {
				return fmt.Errorf("%s takes %d accesses and listed nodes after %d repetitions, %d after %d, but %d after %d", name, a, c.N, b, 2*c.N, d, 4*c.N)
			}
		}
		return nil
	},
}

func TestC24(t *testing.T) { kit.Run(t, "main", propC24) }
func FuzzC24(f *testing.F) { kit.Fuzz(f, "main", propC24) }
