package kit

import (
	"fmt"
	"strings"
)

// Scribe writes histories into a storage in the form semnet stores them, without
// semnet: the specification of the stored form. It is kept in step with the model.
//
// An item is a chain of nodes by reference. Its first node is linked to the node
// of its class (1 bits, 2 characters, 3 words, 4 phrases, 5 details, 6 remarks,
// 7 facts, 8 stories; they refer to each other in this order):
//
//	bit       class, character
//	character class, bit, character, word
//	word      class, character, word, phrase
//	phrase    class, word, phrase, detail
//	detail    class, phrase, remark
//	remark    class, detail, position, fact
//	fact      class, remark, position, story
//	story     class, fact, position, tree
type Scribe struct {
	S       Store
	M       *Model
	bits    [2]item
	made    map[string]item // of tries and details
	remarks []item
	facts   []item // like those of the model
	stories []item
	err     error
}

type item []uint

func (s *Scribe) do(err error) {
	if err != nil && s.err == nil {
		s.err = err
	}
}

func (s *Scribe) link(a, b uint) { s.do(s.S.Connect(a, b)) }

func (s *Scribe) item(class, nodes int) item {
	it := make(item, nodes)
	for i := range it {
		n, err := s.S.Create()
		s.do(err)
		it[i] = n
		if i > 0 {
			s.do(s.S.SetReference(it[i-1], n))
		}
	}
	s.link(it[0], uint(class))
	return it
}

// start makes the classes and the bits. Zero is the bit of the smaller number.
func (s *Scribe) start() {
	s.made = map[string]item{}
	for i := 1; i <= 8; i++ {
		n, err := s.S.Create()
		s.do(err)
		if n != uint(i) {
			s.do(fmt.Errorf("class node %d has the number %d", i, n))
		}
		if i > 1 {
			s.do(s.S.SetReference(uint(i-1), n))
		}
	}
	a, b := s.item(1, 2), s.item(1, 2)
	if a[0] > b[0] {
		a, b = b, a
	}
	s.bits = [2]item{a, b}
}

// trie finds or makes an entry: below is what it is made of (its last node), node
// the one that takes part, previous the entry before it.
func (s *Scribe) trie(key string, class int, below uint, previous item) item {
	if it, ok := s.made[key]; ok {
		return it
	}
	it := s.item(class, 4)
	s.link(it[1], below)
	if previous == nil {
		s.link(below, it[1])
	} else {
		s.link(previous[2], it[2])
	}
	s.made[key] = it
	return it
}

func (s *Scribe) character(r rune) item {
	var it item
	bits := fmt.Sprintf("%b", r)
	for i := range bits {
		b := s.bits[bits[i]-'0']
		it = s.trie("c"+bits[:i+1], 2, b[1], it)
	}
	return it
}

func (s *Scribe) word(text string) item {
	var it item
	rs := []rune(text)
	for i, r := range rs {
		c := s.character(r)
		it = s.trie("w"+string(rs[:i+1]), 3, c[3], it)
	}
	return it
}

func (s *Scribe) phrase(text string) item {
	var it item
	ws := strings.Split(text, " ")
	for i, x := range ws {
		w := s.word(x)
		it = s.trie("p"+strings.Join(ws[:i+1], " "), 4, w[3], it)
	}
	return it
}

func (s *Scribe) detail(o, p string) item {
	object, property := s.phrase(o), s.phrase(p)
	key := "d" + o + "  " + p
	if it, ok := s.made[key]; ok {
		return it
	}
	it := s.item(5, 3)
	s.link(object[3], it[1])
	s.link(it[1], property[3])
	s.made[key] = it
	return it
}

func (s *Scribe) remark(o, p string) item {
	d := s.detail(o, p)
	it := s.item(6, 4)
	s.link(d[2], it[1])
	s.remarks = append(s.remarks, it)
	return it
}

// fact makes a fact and its first remark.
func (s *Scribe) fact(o, p string, story item) item {
	r := s.remark(o, p)
	it := s.item(7, 4)
	s.link(r[3], it[1])
	s.link(it[1], r[3])
	if story == nil {
		story = s.item(8, 4)
		s.link(story[1], it[3])
		s.stories = append(s.stories, story)
	}
	s.link(it[3], story[1])
	s.facts = append(s.facts, it)
	return it
}

// Add writes one step.
func (s *Scribe) Add(st Step) error {
	if s.made == nil {
		s.start()
	}
	if st.Op != "story" && len(s.M.Remarks) == 0 || st.Op == "open" {
		return s.err
	}
	o, p := string(st.O), string(st.P)
	on := -1
	if st.Op != "story" {
		on = mod(st.On, len(s.M.Remarks))
	}
	switch st.Op {
	case "story":
		s.fact(o, p, nil)
	case "remark":
		m := s.M.Remarks[on]
		r := s.remark(m.O, p)
		s.link(r[3], s.facts[m.Fact][1])
	case "fact":
		story := s.M.StoryOf(on)
		facts := s.M.Stories[story].Facts
		f := s.fact(o, p, s.stories[story])
		s.link(s.facts[facts[len(facts)-1]][2], f[2])
	case "child":
		parent := s.M.StoryOf(on)
		s.fact(o, p, nil)
		child := s.stories[len(s.stories)-1]
		s.link(child[3], s.stories[parent][3])
		if n := len(s.M.Stories[parent].Children); n > 0 {
			s.link(s.stories[s.M.Stories[parent].Children[n-1]][2], child[2])
		}
	default:
		return fmt.Errorf("kit: unknown step %s", st.Op)
	}
	if s.err == nil {
		s.M.Apply(st, on, s.remarks[len(s.remarks)-1][0])
	}
	return s.err
}

// Adopt takes over what a scribe wrote: remarks are fetched by identifier.
func (w *World) Adopt(m *Model) error {
	w.M = m
	for r := range m.Remarks {
		h, err := w.Fetch(r, 0)
		if err != nil {
			return fmt.Errorf("fetching remark #%d: %w", r, err)
		}
		w.H = append(w.H, h)
	}
	return nil
}
