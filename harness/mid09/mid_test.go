package mid09

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/concrete/bit"
	"github.com/mem-memov/semnet/internal/concrete/character"
	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/concrete/detail"
	"github.com/mem-memov/semnet/internal/concrete/fact"
	"github.com/mem-memov/semnet/internal/concrete/phrase"
	"github.com/mem-memov/semnet/internal/concrete/story"
	"github.com/mem-memov/semnet/internal/concrete/word"
	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

type partCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []kit.Step    `json:"steps"`
	Warm  bool          `json:"warm"`
	Mode  string        `json:"mode"`
	Op    string        `json:"op"`
	On    int           `json:"on"`
	Rune  int32         `json:"rune"`
	O     kit.Text      `json:"o"`
	P     kit.Text      `json:"p"`
}

var ops = []string{"provide class", "create item", "is of kind", "all bits", "provide bit", "fetch bit", "provide character", "fetch character",
	"provide word", "fetch word", "provide phrase", "fetch phrase", "provide detail", "fetch detail",
	"fetch fact", "next fact?", "next fact", "first remark", "next story?", "next story", "parent story?", "parent story", "first fact", "create story"}

type parts struct {
	classes    *class.Repository
	bits       *bit.Repository
	characters *character.Repository
	words      *word.Repository
	phrases    *phrase.Repository
	details    *detail.Repository
	stories    *story.Repository
	facts      *fact.Repository
}

func open(s kit.Store) parts {
	var p parts
	p.classes = class.NewRepository(s)
	p.bits = bit.NewRepository(s, p.classes)
	p.characters = character.NewRepository(s, p.classes, p.bits)
	p.words = word.NewRepository(s, p.classes, p.characters)
	p.phrases = phrase.NewRepository(s, p.classes, p.words)
	p.details = detail.NewRepository(s, p.classes, p.phrases)
	p.stories = story.NewRepository(s, p.classes)
	p.facts = fact.NewRepository(s, p.classes, p.stories)
	return p
}

// node of the chain of references from the class node of a member
func member(w *kit.World, class uint, on, steps int) (uint, error) {
	list, err := w.Spy.Inner.ReadSources(class)
	if err != nil {
		return 0, err
	}
	n := list[on%len(list)]
	for i := 0; i < steps; i++ {
		if _, n, err = w.Spy.Inner.GetReference(n); err != nil {
			return 0, err
		}
	}
	return n, nil
}

// run gives the operation, after preparing what it works on.
func run(w *kit.World, p parts, c partCase) (func() error, error) {
	prepare := func(class uint, steps int) (uint, error) { return member(w, class, c.On, steps) }
	switch c.Op {
	case "provide class":
		return func() error { _, err := p.classes.ProvideEntity(); return err }, nil
	case "create item", "is of kind", "all bits":
		e, err := p.classes.ProvideEntity()
		if err != nil {
			return nil, err
		}
		k := c.On % 8
		if c.Op == "all bits" {
			return func() error { _, err := e.GetAllBits(); return err }, nil
		}
		if c.Op == "create item" {
			f := []func() (uint, error){e.CreateBit, e.CreateCharacter, e.CreateWord, e.CreatePhrase, e.CreateDetail, e.CreateRemark, e.CreateFact, e.CreateStory}[k]
			return func() error { _, err := f(); return err }, nil
		}
		f := []func(uint) (bool, error){e.IsBit, e.IsCharacter, e.IsWord, e.IsPhrase, e.IsDetail, e.IsRemark, e.IsFact, e.IsStory}[k]
		id, err := prepare(uint(1+c.On/8%8), 0)
		return func() error { _, err := f(id); return err }, err
	case "provide bit":
		return func() error { _, err := p.bits.Provide(c.On%2 == 0); return err }, nil
	case "fetch bit":
		id, err := prepare(1, 1)
		return func() error { _, err := p.bits.Fetch(id); return err }, err
	case "provide character":
		return func() error { _, err := p.characters.Provide(c.Rune); return err }, nil
	case "fetch character":
		id, err := prepare(2, 3)
		return func() error {
			e, err := p.characters.Fetch(id)
			if err != nil {
				return err
			}
			if _, err := e.HasTargetWord(); err != nil {
				return err
			}
			_, err = e.Extract()
			return err
		}, err
	case "provide word":
		return func() error { _, err := p.words.Provide(string(c.O)); return err }, nil
	case "fetch word":
		id, err := prepare(3, 3)
		return func() error {
			e, err := p.words.Fetch(id)
			if err != nil {
				return err
			}
			if _, err := e.HasTargetPhrase(); err != nil {
				return err
			}
			_, err = e.Extract()
			return err
		}, err
	case "provide phrase":
		return func() error { _, err := p.phrases.Provide(string(c.O)); return err }, nil
	case "fetch phrase":
		id, err := prepare(4, 3)
		return func() error {
			e, err := p.phrases.Fetch(id)
			if err != nil {
				return err
			}
			if _, err := e.GetSourceDetails(); err != nil {
				return err
			}
			if _, err := e.GetTargetDetails(); err != nil {
				return err
			}
			_, err = e.Extract()
			return err
		}, err
	case "provide detail":
		return func() error { _, err := p.details.Provide(string(c.O), string(c.P)); return err }, nil
	case "fetch detail":
		id, err := prepare(5, 2)
		return func() error {
			e, err := p.details.Fetch(id)
			if err != nil {
				return err
			}
			_, _, err = e.GetObjectAndProperty()
			return err
		}, err
	case "create story":
		return func() error { _, err := p.stories.CreateStory(); return err }, nil
	}
	id, err := prepare(7, 1)
	if err != nil {
		return nil, err
	}
	if c.Op == "fetch fact" {
		return func() error { _, err := p.facts.FetchByRemark(id); return err }, nil
	}
	f, err := p.facts.FetchByRemark(id)
	if err != nil {
		return nil, err
	}
	return map[string]func() error{
		"next fact?":    func() error { _, err := f.HasNextFact(); return err },
		"next fact":     func() error { _, err := f.ToNextFact(); return err },
		"first remark":  func() error { _, err := f.GetFirstRemark(); return err },
		"next story?":   func() error { _, err := f.HasNextStory(); return err },
		"next story":    func() error { _, err := f.ToNextStory(); return err },
		"parent story?": func() error { _, err := f.HasParentStory(); return err },
		"parent story":  func() error { _, err := f.ToParentStory(); return err },
		"first fact":    func() error { _, err := f.ToFirstFact(); return err },
	}[c.Op], nil
}

// The parts a graph is made of, used directly.
var prop = kit.Prop[partCase]{
	ID:   "C09",
	Rule: "a case is a history of 1-6 additions and one operation of a part (classes, bits, characters, words, phrases, details, facts, stories), run once for every storage access it makes with that access failing; each run must return an error; executions count these runs; non-trivial: the operation makes at least 2 accesses",
	Gen: func(t *rapid.T) partCase {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, NoMass: true, Min: 1, Max: 6, Ops: []kit.Choice{{"story", 1}, {"remark", 2}, {"fact", 4}, {"child", 5}}}
		return partCase{
			Store: kit.DrawStore(t, false, true),
			Steps: h.Draw(t, v),
			Warm:  rapid.Bool().Draw(t, "warm"),
			Mode:  kit.One([]string{"once", "from then on", "after"}).Draw(t, "mode"),
			Op:    kit.One(ops).Draw(t, "op"),
			On:    kit.Int(0, 63).Draw(t, "on"),
			Rune:  kit.WordRune(t),
			O:     v.Draw(t, "o"),
			P:     v.Draw(t, "p"),
		}
	},
	Exec: func(c partCase, cov *kit.Cov) error {
		w := kit.NewWorld(kit.NewMem(c.Store))
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		}
		base := w.Spy.Mem()
		for k := 1; ; k++ {
			w.Spy.Arm(0, false, false)
			w.Spy.Inner = base.Clone()
			p := open(w.Spy)
			if c.Warm {
				if _, err := p.bits.Provide(true); err != nil {
					return err
				}
			}
			op, err := run(w, p, c)
			if err != nil {
				return fmt.Errorf("preparing %q: %w", c.Op, err)
			}
			w.Spy.Arm(k, c.Mode == "from then on", c.Mode == "after")
			err = kit.Guard(c.Op, op)
			fired := w.Spy.Fired
			w.Spy.Disarm()
			if !fired {
				cov.Inner(k)
				cov.Label("op:" + c.Op)
				if k > 2 {
					cov.NonTrivial()
				}
				return nil
			}
			if err == nil {
				return fmt.Errorf("%q succeeds although storage access %d failed", c.Op, k)
			}
			if kit.IsCrash(err) {
				return fmt.Errorf("%q with storage access %d failing: %w", c.Op, k, err)
			}
		}
	},
}

func TestC09(t *testing.T) { kit.Run(t, "parts", prop) }
func FuzzC09(f *testing.F) { kit.Fuzz(f, "parts", prop) }
