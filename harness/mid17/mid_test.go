package mid17

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/concrete/bit"
	"github.com/mem-memov/semnet/internal/concrete/character"
	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/concrete/detail"
	"github.com/mem-memov/semnet/internal/concrete/phrase"
	"github.com/mem-memov/semnet/internal/concrete/word"
	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

const (
	levelBit = iota
	levelCharacter
	levelWord
	levelPhrase
	levelDetail
)

var levels = []string{"bit", "character", "word", "phrase", "detail"}

// lookupStep provides a value at a level, attaches a new node to an entry of the
// top level provided before, or opens another set of repositories.
type lookupStep struct {
	Do     string   `json:"do"` // "provide", "attach", "open"
	Level  int      `json:"level,omitempty"`
	Rune   int32    `json:"rune,omitempty"`
	Text   kit.Text `json:"text,omitempty"`
	Second kit.Text `json:"second,omitempty"`
	On     int      `json:"on,omitempty"`
	Set    int      `json:"set,omitempty"`
}

type lookupCase struct {
	Store kit.StoreSpec `json:"store"`
	Top   int           `json:"top"`
	Steps []lookupStep  `json:"steps"`
}

type set struct {
	bits       *bit.Repository
	characters *character.Repository
	words      *word.Repository
	phrases    *phrase.Repository
	details    *detail.Repository
}

func open(s kit.Store) set {
	classes := class.NewRepository(s)
	bits := bit.NewRepository(s, classes)
	characters := character.NewRepository(s, classes, bits)
	words := word.NewRepository(s, classes, characters)
	phrases := phrase.NewRepository(s, classes, words)
	return set{bits, characters, words, phrases, detail.NewRepository(s, classes, phrases)}
}

type key struct {
	level int
	a, b  string
	r     int32
}

func (k key) String() string {
	switch k.level {
	case levelBit, levelCharacter:
		return fmt.Sprintf("%s %#x", levels[k.level], k.r)
	case levelDetail:
		return fmt.Sprintf("detail (%q, %q)", k.a, k.b)
	}
	return fmt.Sprintf("%s %q", levels[k.level], k.a)
}

type world struct {
	spy      *kit.Spy
	sets     []set
	keys     []key
	entry    map[key]uint   // where the entry is fetched from
	attached map[key][]uint // nodes attached to an entry, links from it
	attachIn map[key][]uint // links to it, phrases only
}

func expect(k key, what string, err error) error {
	return fmt.Errorf("%s: %s: %w", k, what, err)
}

// provide looks the value up, checks what it yields and gives the node to fetch
// it from, 0 when the level has no such node before something is attached.
func (w *world) provide(s set, k key) (uint, error) {
	switch k.level {
	case levelBit:
		e, err := s.bits.Provide(k.r == 1)
		if err != nil {
			return 0, expect(k, "provide", err)
		}
		if e.Bit() != (k.r == 1) || !e.Is(k.r == 1) {
			return 0, fmt.Errorf("%s yields %v", k, e.Bit())
		}
		return e.GetCharacter(), nil
	case levelCharacter:
		e, err := s.characters.Provide(k.r)
		if err != nil {
			return 0, expect(k, "provide", err)
		}
		v, err := e.Extract()
		if err != nil {
			return 0, expect(k, "extract", err)
		}
		if v != k.r {
			return 0, fmt.Errorf("%s yields %#x", k, v)
		}
		if w.top(k) {
			has, err := e.HasTargetWord()
			if err != nil {
				return 0, expect(k, "asking for attached word", err)
			}
			if has != (len(w.attached[k]) == 1) {
				return 0, fmt.Errorf("%s: has attached word is %v, attached %v", k, has, w.attached[k])
			}
			to, err := e.GetTargetWord()
			if has && (err != nil || to != w.attached[k][0]) {
				return 0, fmt.Errorf("%s: attached word is %d (%v), expected %d", k, to, err, w.attached[k][0])
			}
			if !has && err == nil {
				return 0, fmt.Errorf("%s: attached word %d where none is", k, to)
			}
		}
		return e.GetWord(), nil
	case levelWord:
		e, err := s.words.Provide(k.a)
		if err != nil {
			return 0, expect(k, "provide", err)
		}
		v, err := e.Extract()
		if err != nil {
			return 0, expect(k, "extract", err)
		}
		if v != k.a {
			return 0, fmt.Errorf("%s yields %q", k, v)
		}
		if w.top(k) {
			has, err := e.HasTargetPhrase()
			if err != nil {
				return 0, expect(k, "asking for attached phrase", err)
			}
			if has != (len(w.attached[k]) == 1) {
				return 0, fmt.Errorf("%s: has attached phrase is %v, attached %v", k, has, w.attached[k])
			}
			to, err := e.GetTargetPhrase()
			if has && (err != nil || to != w.attached[k][0]) {
				return 0, fmt.Errorf("%s: attached phrase is %d (%v), expected %d", k, to, err, w.attached[k][0])
			}
			if !has && err == nil {
				return 0, fmt.Errorf("%s: attached phrase %d where none is", k, to)
			}
		}
		return e.GetPhrase(), nil
	case levelPhrase:
		e, err := s.phrases.Provide(k.a)
		if err != nil {
			return 0, expect(k, "provide", err)
		}
		v, err := e.Extract()
		if err != nil {
			return 0, expect(k, "extract", err)
		}
		if v != k.a {
			return 0, fmt.Errorf("%s yields %q", k, v)
		}
		if w.top(k) {
			out, err := e.GetTargetDetails()
			if err != nil {
				return 0, expect(k, "attached details", err)
			}
			in, err := e.GetSourceDetails()
			if err != nil {
				return 0, expect(k, "attached details", err)
			}
			if !sameSet(out, w.attached[k]) || !sameSet(in, w.attachIn[k]) {
				return 0, fmt.Errorf("%s: attached details are %v and %v, expected %v and %v", k, out, in, w.attached[k], w.attachIn[k])
			}
		}
		return w.entry[k], nil
	default:
		e, err := s.details.Provide(k.a, k.b)
		if err != nil {
			return 0, expect(k, "provide", err)
		}
		o, p, err := e.GetObjectAndProperty()
		if err != nil {
			return 0, expect(k, "extract", err)
		}
		if o != k.a || p != k.b {
			return 0, fmt.Errorf("%s yields (%q, %q)", k, o, p)
		}
		return w.entry[k], nil
	}
}

var theTop int

func (w *world) top(k key) bool { return k.level == theTop }

func sameSet(a, b []uint) bool {
	if len(a) != len(b) {
		return false
	}
	for _, x := range a {
		found := false
		for _, y := range b {
			found = found || x == y
		}
		if !found {
			return false
		}
	}
	return true
}

// fetch reads the entry back from its node.
func (w *world) fetch(s set, k key, node uint) error {
	switch k.level {
	case levelBit:
		e, err := s.bits.Fetch(node)
		if err != nil {
			return expect(k, "fetch", err)
		}
		if e.Bit() != (k.r == 1) {
			return fmt.Errorf("%s fetched yields %v", k, e.Bit())
		}
	case levelCharacter:
		e, err := s.characters.Fetch(node)
		if err != nil {
			return expect(k, "fetch", err)
		}
		v, err := e.Extract()
		if err != nil {
			return expect(k, "extract fetched", err)
		}
		if v != k.r || e.GetWord() != node {
			return fmt.Errorf("%s fetched at %d yields %#x at %d", k, node, v, e.GetWord())
		}
	case levelWord:
		e, err := s.words.Fetch(node)
		if err != nil {
			return expect(k, "fetch", err)
		}
		v, err := e.Extract()
		if err != nil {
			return expect(k, "extract fetched", err)
		}
		if v != k.a || e.GetPhrase() != node {
			return fmt.Errorf("%s fetched at %d yields %q at %d", k, node, v, e.GetPhrase())
		}
	case levelPhrase:
		e, err := s.phrases.Fetch(node)
		if err != nil {
			return expect(k, "fetch", err)
		}
		v, err := e.Extract()
		if err != nil {
			return expect(k, "extract fetched", err)
		}
		if v != k.a {
			return fmt.Errorf("%s fetched yields %q", k, v)
		}
		out, err := e.GetTargetDetails()
		if err != nil {
			return expect(k, "attached details", err)
		}
		in, err := e.GetSourceDetails()
		if err != nil {
			return expect(k, "attached details", err)
		}
		if w.top(k) && (!sameSet(out, w.attached[k]) || !sameSet(in, w.attachIn[k])) {
			return fmt.Errorf("%s fetched: attached details are %v and %v, expected %v and %v", k, out, in, w.attached[k], w.attachIn[k])
		}
	default:
		e, err := s.details.Fetch(node)
		if err != nil {
			return expect(k, "fetch", err)
		}
		o, p, err := e.GetObjectAndProperty()
		if err != nil {
			return expect(k, "extract fetched", err)
		}
		if o != k.a || p != k.b {
			return fmt.Errorf("%s fetched yields (%q, %q)", k, o, p)
		}
	}
	return nil
}

// attach links a new node to the entry.
func (w *world) attach(s set, k key, in bool) error {
	if (k.level == levelCharacter || k.level == levelWord) && len(w.attached[k]) > 0 {
		return nil // one only
	}
	node, err := w.spy.Create()
	if err != nil {
		return err
	}
	from := true
	switch k.level {
	case levelCharacter:
		e, err := s.characters.Provide(k.r)
		if err == nil {
			err = e.PointToWord(node)
		}
		if err != nil {
			return expect(k, "attach", err)
		}
	case levelWord:
		e, err := s.words.Provide(k.a)
		if err == nil {
			err = e.PointToPhrase(node)
		}
		if err != nil {
			return expect(k, "attach", err)
		}
	case levelPhrase:
		e, err := s.phrases.Provide(k.a)
		if err == nil {
			if in {
				err = e.AddSourceDetail(node)
				from = false
			} else {
				err = e.AddTargetDetail(node)
			}
		}
		if err != nil {
			return expect(k, "attach", err)
		}
	case levelDetail:
		e, err := s.details.Provide(k.a, k.b)
		if err == nil {
			err = e.PointToRemark(node)
		}
		if err != nil {
			return expect(k, "attach", err)
		}
	}
	// the node the entry is attached by, the same every time
	var links []uint
	if from {
		links, err = w.spy.ReadSources(node)
		w.attached[k] = append(w.attached[k], node)
	} else {
		links, err = w.spy.ReadTargets(node)
		w.attachIn[k] = append(w.attachIn[k], node)
	}
	if err != nil {
		return err
	}
	if len(links) != 1 {
		return fmt.Errorf("%s: attaching a node links it %d times", k, len(links))
	}
	if at, ok := w.entry[k]; ok && at != links[0] {
		return fmt.Errorf("%s: entry is at node %d, was at node %d", k, links[0], at)
	}
	w.entry[k] = links[0]
	return nil
}

// check goes through everything known with every set of repositories.
func (w *world) check() error {
	sets := append(append([]set(nil), w.sets...), open(w.spy))
	for n, s := range sets {
		byNode := map[[2]uint]key{}
		for _, k := range w.keys {
			w.spy.Arm(0, false, false)
			node, err := w.provide(s, k)
			if err != nil {
				return fmt.Errorf("repositories %d: %w", n, err)
			}
			if node == 0 {
				continue
			}
			if at, ok := w.entry[k]; ok && at != node {
				return fmt.Errorf("repositories %d: %s is at node %d, was at node %d", n, k, node, at)
			}
			w.entry[k] = node
			if other, ok := byNode[[2]uint{uint(k.level), node}]; ok {
				return fmt.Errorf("repositories %d: %s and %s are the same entry", n, k, other)
			}
			byNode[[2]uint{uint(k.level), node}] = k
			if err := w.fetch(s, k, node); err != nil {
				return fmt.Errorf("repositories %d: %w", n, err)
			}
		}
	}
	return nil
}

var prop = kit.Prop[lookupCase]{
	ID:   "C17",
	Rule: "a case provides 1-14 values at the levels bit, character (any code point up to 2^31-1), word, phrase and object-property pair through several sets of repositories, and attaches nodes to entries of the highest level used; after every step every value is provided again and fetched, must yield itself from its one entry, no two values share an entry, and attached nodes are found at their entry only; non-trivial: at least 3 values of one level, two of which begin alike",
	Gen: func(t *rapid.T) lookupCase {
		v := kit.DrawVocabulary(t)
		c := lookupCase{Store: kit.DrawStore(t, true, true), Top: kit.Int(levelCharacter, levelDetail).Draw(t, "top")}
		for i, n := 0, kit.Int(1, 14).Draw(t, "steps"); i < n; i++ {
			s := lookupStep{Do: "provide", Set: kit.Int(0, 2).Draw(t, "set")}
			switch x := kit.Int(0, 9).Draw(t, "do"); {
			case x == 0:
				s.Do = "open"
			case x <= 3:
				s.Do = "attach"
				s.On = kit.Int(0, 15).Draw(t, "on")
			default:
				s.Level = c.Top
				if kit.Int(0, 3).Draw(t, "lower") == 0 {
					s.Level = kit.Int(levelBit, c.Top).Draw(t, "level")
				}
				switch s.Level {
				case levelBit:
					s.Rune = int32(kit.Int(0, 1).Draw(t, "bit"))
				case levelCharacter:
					switch kit.Int(0, 3).Draw(t, "kind") {
					case 0:
						s.Rune = kit.One([]rune("ab1c0`\x00\x01 ")).Draw(t, "plain")
					case 1:
						s.Rune = int32(kit.Int(0xd7f0, 0xe010).Draw(t, "surrogate"))
					default:
						b := kit.Int(0, 30).Draw(t, "bits")
						s.Rune = int32(1<<b + kit.Int(0, 1<<b-1).Draw(t, "value"))
					}
				case levelWord:
					if kit.Int(0, 3).Draw(t, "free") == 0 {
						s.Text = kit.Text(kit.FreeText(t, 2, 5)) // a space is a character here
					} else {
						s.Text = kit.Text(kit.One(v.Words).Draw(t, "word"))
					}
				case levelPhrase:
					s.Text = v.Draw(t, "phrase")
				default:
					s.Text = v.Draw(t, "object")
					s.Second = v.Draw(t, "property")
				}
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	},
	Exec: func(c lookupCase, cov *kit.Cov) error {
		theTop = c.Top
		spy := kit.NewSpy(c.Store.New())
		w := &world{spy: spy, sets: []set{open(spy)}, entry: map[key]uint{}, attached: map[key][]uint{}, attachIn: map[key][]uint{}}
		cov.Label("top " + levels[c.Top])
		for i, s := range c.Steps {
			err := kit.Guard("lookup", func() error {
				w.spy.Arm(0, false, false)
				with := w.sets[s.Set%len(w.sets)]
				switch s.Do {
				case "open":
					w.sets = append(w.sets, open(w.spy))
				case "attach":
					var tops []key
					for _, k := range w.keys {
						if k.level == c.Top {
							tops = append(tops, k)
						}
					}
					if len(tops) == 0 {
						return nil
					}
					cov.Label("attached")
					if err := w.attach(with, tops[s.On%len(tops)], s.On%2 == 1); err != nil {
						return err
					}
				default:
					k := key{level: s.Level, a: string(s.Text), b: string(s.Second), r: s.Rune}
					known := false
					for _, x := range w.keys {
						known = known || x == k
					}
					if !known {
						w.keys = append(w.keys, k)
					}
					// the entry through the chosen repositories first
					if _, err := w.provide(with, k); err != nil {
						return err
					}
				}
				return w.check()
			})
			if err != nil {
				return fmt.Errorf("step %d, %s: %w", i, s.Do, err)
			}
		}
		count := map[int]int{}
		alike := map[int]bool{}
		for i, k := range w.keys {
			count[k.level]++
			for _, x := range w.keys[:i] {
				if x.level == k.level && begin(x) == begin(k) {
					alike[k.level] = true
				}
			}
		}
		for l, n := range count {
			if n >= 3 && alike[l] {
				cov.NonTrivial()
			}
		}
		return nil
	},
}

func begin(k key) string {
	switch k.level {
	case levelBit, levelCharacter:
		return fmt.Sprintf("%b", k.r)[:1]
	}
	for _, r := range k.a {
		return string(r)
	}
	return ""
}

func TestC17(t *testing.T) { kit.Run(t, "main", prop) }
func FuzzC17(f *testing.F) { kit.Fuzz(f, "main", prop) }
