package kit

import (
	"errors"
	"fmt"

	"github.com/mem-memov/semnet"
	abstractRemark "github.com/mem-memov/semnet/internal/abstract/remark"
)

type Agg = abstractRemark.Aggregate

// Step is one operation of a history.
//
//	story  CreateStory(O, P)
//	remark AddRemarkToFact(P) on remark On
//	fact   AddFactToStory(O, P) on remark On
//	child  CreateChildStory(O, P) on remark On
//	link   chain the next unchained remark of the fact of On in the storage
//	open   open one more graph on the storage, G becomes usable
//
// On counts the remarks made so far, modulo their number. Via 0 uses the handle
// the remark was returned with, 1 fetches it by identifier from graph G.
type Step struct {
	Op  string `json:"op"`
	On  int    `json:"on,omitempty"`
	O   Text   `json:"o,omitempty"`
	P   Text   `json:"p,omitempty"`
	Via int    `json:"via,omitempty"`
	G   int    `json:"g,omitempty"`
}

type MRemark struct {
	O, P string
	Fact int
	Next int // chained remark or -1
	ID   uint
}
type MFact struct {
	Story   int
	Remarks []int
}
type MStory struct {
	Parent   int // -1
	Index    int // among the children of the parent
	Facts    []int
	Children []int
	Depth    int
}

// Model is what a user may rely on, without any storage.
type Model struct {
	Remarks []MRemark
	Facts   []MFact
	Stories []MStory
}

func (m *Model) story(parent int) int {
	s := MStory{Parent: parent}
	if parent >= 0 {
		s.Index = len(m.Stories[parent].Children)
		s.Depth = m.Stories[parent].Depth + 1
		m.Stories[parent].Children = append(m.Stories[parent].Children, len(m.Stories))
	}
	m.Stories = append(m.Stories, s)
	return len(m.Stories) - 1
}

func (m *Model) fact(story int) int {
	m.Stories[story].Facts = append(m.Stories[story].Facts, len(m.Facts))
	m.Facts = append(m.Facts, MFact{Story: story})
	return len(m.Facts) - 1
}

func (m *Model) remark(fact int, o, p string, id uint) int {
	m.Facts[fact].Remarks = append(m.Facts[fact].Remarks, len(m.Remarks))
	m.Remarks = append(m.Remarks, MRemark{O: o, P: p, Fact: fact, Next: -1, ID: id})
	return len(m.Remarks) - 1
}

func (m *Model) StoryOf(r int) int { return m.Facts[m.Remarks[r].Fact].Story }

// Apply adds the outcome of a successful step. on is the remark index.
func (m *Model) Apply(s Step, on int, id uint) int {
	switch s.Op {
	case "story":
		return m.remark(m.fact(m.story(-1)), string(s.O), string(s.P), id)
	case "remark":
		return m.remark(m.Remarks[on].Fact, m.Remarks[on].O, string(s.P), id)
	case "fact":
		return m.remark(m.fact(m.StoryOf(on)), string(s.O), string(s.P), id)
	case "child":
		return m.remark(m.fact(m.story(m.StoryOf(on))), string(s.O), string(s.P), id)
	}
	panic("kit: unknown step " + s.Op)
}

func (m *Model) Clone() *Model {
	c := &Model{Remarks: append([]MRemark(nil), m.Remarks...)}
	for _, f := range m.Facts {
		c.Facts = append(c.Facts, MFact{f.Story, append([]int(nil), f.Remarks...)})
	}
	for _, s := range m.Stories {
		s.Facts = append([]int(nil), s.Facts...)
		s.Children = append([]int(nil), s.Children...)
		c.Stories = append(c.Stories, s)
	}
	return c
}

// FirstFact is the opening remark of the story of r.
func (m *Model) FirstFact(r int) int {
	return m.Facts[m.Stories[m.StoryOf(r)].Facts[0]].Remarks[0]
}

// NextFact is the first remark of the fact after that of r, or -1.
func (m *Model) NextFact(r int) int {
	f := m.Remarks[r].Fact
	facts := m.Stories[m.Facts[f].Story].Facts
	for i, x := range facts {
		if x == f && i+1 < len(facts) {
			return m.Facts[facts[i+1]].Remarks[0]
		}
	}
	return -1
}

// NextStory is the opening remark of the next child of the same parent, or -1.
func (m *Model) NextStory(r int) int {
	s := m.Stories[m.StoryOf(r)]
	if s.Parent < 0 {
		return -1
	}
	sib := m.Stories[s.Parent].Children
	if s.Index+1 >= len(sib) {
		return -1
	}
	return m.Facts[m.Stories[sib[s.Index+1]].Facts[0]].Remarks[0]
}

// Text is the rendered story of r.
func (m *Model) Text(r int) string {
	out := ""
	for x := m.FirstFact(r); x >= 0; x = m.Remarks[x].Next {
		out += m.Remarks[x].O + " " + m.Remarks[x].P + " "
	}
	return out
}

// World runs a history against the real code and the model.
type World struct {
	Spy    *Spy
	Graphs []*semnet.Graph
	M      *Model
	out    map[*semnet.Graph]*semnet.Output // in use for the whole history
	turns  int
	H      []Agg // the handle each remark was returned with
	Light  bool  // where navigation leads is told by the identifier alone
}

func NewWorld(store Store) *World {
	w := &World{Spy: NewSpy(store), M: &Model{}}
	w.Open()
	return w
}

func (w *World) Open() { w.Graphs = append(w.Graphs, semnet.NewGraph(w.Spy)) }

func (w *World) Graph(g int) *semnet.Graph { return w.Graphs[mod(g, len(w.Graphs))] }

func mod(i, n int) int {
	i %= n
	if i < 0 {
		i += n
	}
	return i
}

// Crash is a panic, an endless loop or a missing answer of the code under test.
type Crash struct{ What string }

func (c *Crash) Error() string { return c.What }

// Guard runs f and turns a panic into an error.
func Guard(what string, f func() error) (err error) {
	operations.Add(1)
	defer func() {
		if p := recover(); p != nil {
			if b, ok := p.(budgetExceeded); ok {
				err = &Crash{fmt.Sprintf("%s does not end (%d storage accesses)", what, b.calls)}
				return
			}
			err = &Crash{fmt.Sprintf("%s panics: %v", what, p)}
		}
	}()
	return f()
}

// IsCrash tells a panic or endless loop from an error returned.
func IsCrash(err error) bool {
	var c *Crash
	return errors.As(err, &c)
}

// Handle gives the remark by the way the step asks for.
func (w *World) Handle(on, via, g int) (Agg, error) {
	if via == 0 {
		return w.H[on], nil
	}
	var a Agg
	err := Guard("GetRemark", func() error {
		r, err := w.Graph(g).GetRemark(w.M.Remarks[on].ID)
		a = r.Aggregate
		return err
	})
	return a, err
}

// Fetch gets a remark by identifier from graph g.
func (w *World) Fetch(on, g int) (Agg, error) { return w.Handle(on, 1, g) }

// Target is the remark index a step works on, -1 when it needs none or there is none.
func (w *World) Target(s Step) int {
	if s.Op == "story" || s.Op == "open" || len(w.M.Remarks) == 0 {
		return -1
	}
	return mod(s.On, len(w.M.Remarks))
}

// Runnable tells that the step can be run at all.
func (w *World) Runnable(s Step) bool {
	return s.Op == "story" || s.Op == "open" || len(w.M.Remarks) > 0
}

// Call runs an additive step without touching the model.
func (w *World) Call(s Step) (Agg, error) {
	w.Spy.Arm(0, false, false)
	if s.Op == "story" {
		var a Agg
		err := Guard("CreateStory", func() error {
			r, err := w.Graph(s.G).CreateStory(string(s.O), string(s.P))
			a = r.Aggregate
			return err
		})
		return a, err
	}
	on := w.Target(s)
	h, err := w.Handle(on, s.Via, s.G)
	if err != nil {
		return nil, fmt.Errorf("fetching remark #%d: %w", on, err)
	}
	return CallOn(h, s)
}

// CallOn runs an additive step on a remark at hand.
func CallOn(h Agg, s Step) (Agg, error) {
	var a Agg
	var err error
	switch s.Op {
	case "remark":
		err = Guard("AddRemarkToFact", func() (err error) { a, err = h.AddRemarkToFact(string(s.P)); return })
	case "fact":
		err = Guard("AddFactToStory", func() (err error) { a, err = h.AddFactToStory(string(s.O), string(s.P)); return })
	case "child":
		err = Guard("CreateChildStory", func() (err error) { a, err = h.CreateChildStory(string(s.O), string(s.P)); return })
	default:
		panic("kit: unknown step " + s.Op)
	}
	return a, err
}

// Record notes a successful additive step.
func (w *World) Record(s Step, a Agg) (int, error) {
	var id uint
	err := Guard("GetIdentifier", func() error {
		if a == nil {
			return errors.New("no remark returned")
		}
		id = a.GetIdentifier()
		return nil
	})
	if err != nil {
		return -1, err
	}
	r := w.M.Apply(s, w.Target(s), id)
	w.H = append(w.H, a)
	return r, nil
}

// Add runs one step, well-formed texts assumed. It returns the index of the new
// remark or -1, and an error when the code under test refuses or crashes.
func (w *World) Add(s Step) (int, error) {
	if !w.Runnable(s) {
		return -1, nil
	}
	switch s.Op {
	case "open":
		w.Open()
		return -1, nil
	case "link":
		return -1, w.Link(w.Target(s))
	}
	a, err := w.Call(s)
	if err != nil {
		return -1, fmt.Errorf("%s refused: %w", s.Show(), err)
	}
	return w.Record(s, a)
}

func (s Step) Show() string {
	switch s.Op {
	case "story":
		return fmt.Sprintf("CreateStory(%q, %q)", string(s.O), string(s.P))
	case "remark":
		return fmt.Sprintf("AddRemarkToFact(%q) on #%d", string(s.P), s.On)
	case "fact":
		return fmt.Sprintf("AddFactToStory(%q, %q) on #%d", string(s.O), string(s.P), s.On)
	case "child":
		return fmt.Sprintf("CreateChildStory(%q, %q) on #%d", string(s.O), string(s.P), s.On)
	}
	return s.Op
}

// Position is the node of a remark that carries the chain of remarks in a fact.
func (w *World) Position(r int) (uint, error) {
	_, d, err := w.Spy.Inner.GetReference(w.M.Remarks[r].ID)
	if err != nil {
		return 0, err
	}
	_, p, err := w.Spy.Inner.GetReference(d)
	return p, err
}

// Link chains the next unchained remark of the fact of r after the last chained
// one. No public operation does that yet; the storage layout provides for it.
func (w *World) Link(r int) error {
	list := w.M.Facts[w.M.Remarks[r].Fact].Remarks
	chained := map[int]bool{}
	last := list[0]
	for x := list[0]; x >= 0; x = w.M.Remarks[x].Next {
		chained[x] = true
		last = x
	}
	for _, x := range list {
		if chained[x] {
			continue
		}
		a, err := w.Position(last)
		if err != nil {
			return err
		}
		b, err := w.Position(x)
		if err != nil {
			return err
		}
		if err := w.Spy.Inner.Connect(a, b); err != nil {
			return err
		}
		w.M.Remarks[last].Next = x
		return nil
	}
	return nil
}

// Reads, one by one, each guarded. They return the identifier reached.

func idOf(a Agg) (uint, error) {
	if a == nil {
		return 0, errors.New("no remark returned")
	}
	return a.GetIdentifier(), nil
}

func Texts(h Agg) (o, p string, err error) {
	err = Guard("GetObjectAndProperty", func() (err error) { o, p, err = h.GetObjectAndProperty(); return })
	return
}

type Dir struct {
	Name string
	Has  func(Agg) (bool, error)
	Get  func(Agg) (Agg, error)
}

var Dirs = []Dir{
	{"remark", Agg.HasNextRemark, Agg.GetNextRemark},
	{"fact", Agg.HasNextFact, Agg.GetNextFact},
	{"story", Agg.HasNextStory, Agg.GetNextStory},
}

// Ask is HasNext in a direction.
func (d Dir) Ask(h Agg) (b bool, err error) {
	err = Guard("HasNext "+d.Name, func() (err error) { b, err = d.Has(h); return })
	return
}

// Move is GetNext in a direction.
func (d Dir) Move(h Agg) (a Agg, err error) {
	err = Guard("GetNext "+d.Name, func() (err error) {
		a, err = d.Get(h)
		if err == nil && a == nil {
			return &Crash{"neither a remark nor an error returned"}
		}
		return
	})
	return
}

func First(h Agg) (a Agg, err error) {
	err = Guard("GetFirstFact", func() (err error) {
		a, err = h.GetFirstFact()
		if err == nil && a == nil {
			return &Crash{"neither a remark nor an error returned"}
		}
		return
	})
	return
}

// Render is Output.GetStory on graph g.
// Render uses an output that has been in use before and a new one in turn.
func (w *World) Render(h Agg, g int) (s string, err error) {
	graph := w.Graph(g)
	out := w.out[graph]
	w.turns++
	if out == nil || w.turns%3 == 0 {
		out = semnet.NewOutput(graph)
		if w.out == nil {
			w.out = map[*semnet.Graph]*semnet.Output{}
		}
		if w.out[graph] == nil {
			w.out[graph] = out
		}
	}
	err = Guard("GetStory", func() (err error) {
		s, err = out.GetStory(semnet.Remark{Aggregate: h})
		return
	})
	return
}

func ID(a Agg) (id uint, err error) {
	err = Guard("GetIdentifier", func() (err error) { id, err = idOf(a); return })
	return
}

// CheckText compares object, property and identifier of remark r.
func (w *World) CheckText(r int, h Agg) error {
	m := w.M.Remarks[r]
	id, err := ID(h)
	if err != nil {
		return fmt.Errorf("remark #%d: %w", r, err)
	}
	if id != m.ID {
		return fmt.Errorf("remark #%d has identifier %d, had %d", r, id, m.ID)
	}
	o, p, err := Texts(h)
	if err != nil {
		return fmt.Errorf("reading the text of remark #%d: %w", r, err)
	}
	if o != m.O || p != m.P {
		return fmt.Errorf("remark #%d reads (%q, %q), stored (%q, %q)", r, o, p, m.O, m.P)
	}
	return nil
}

func (w *World) checkMove(d Dir, r int, h Agg, want int) error {
	b, err := d.Ask(h)
	if err != nil {
		return fmt.Errorf("remark #%d, asking for next %s: %w", r, d.Name, err)
	}
	if b != (want >= 0) {
		return fmt.Errorf("remark #%d: has next %s is %v, expected %v", r, d.Name, b, want >= 0)
	}
	a, err := d.Move(h)
	if want < 0 {
		if err == nil {
			return fmt.Errorf("remark #%d: moved to a next %s that does not exist", r, d.Name)
		}
		if IsCrash(err) {
			return fmt.Errorf("remark #%d: %w", r, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("remark #%d, moving to next %s: %w", r, d.Name, err)
	}
	return w.isRemark(fmt.Sprintf("next %s of remark #%d", d.Name, r), a, want)
}

// isRemark checks that a is remark want: its identifier and, as proof that the
// handle is usable, its text.
func (w *World) isRemark(what string, a Agg, want int) error {
	id, err := ID(a)
	if err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if id != w.M.Remarks[want].ID {
		return fmt.Errorf("%s is %s, expected #%d", what, w.name(id), want)
	}
	if w.Light {
		return nil
	}
	o, p, err := Texts(a)
	if err != nil {
		return fmt.Errorf("%s cannot be read: %w", what, err)
	}
	if o != w.M.Remarks[want].O || p != w.M.Remarks[want].P {
		return fmt.Errorf("%s reads (%q, %q), expected (%q, %q)", what, o, p, w.M.Remarks[want].O, w.M.Remarks[want].P)
	}
	return nil
}

func (w *World) name(id uint) string {
	if i := w.Index(id); i >= 0 {
		return fmt.Sprintf("remark #%d", i)
	}
	return fmt.Sprintf("unknown node %d", id)
}

// Index finds the remark with an identifier, -1 when there is none.
func (w *World) Index(id uint) int {
	for i, m := range w.M.Remarks {
		if m.ID == id {
			return i
		}
	}
	return -1
}

func (w *World) CheckNextFact(r int, h Agg) error {
	return w.checkMove(Dirs[1], r, h, w.M.NextFact(r))
}

func (w *World) CheckNextStory(r int, h Agg) error {
	return w.checkMove(Dirs[2], r, h, w.M.NextStory(r))
}

func (w *World) CheckNextRemark(r int, h Agg) error {
	return w.checkMove(Dirs[0], r, h, w.M.Remarks[r].Next)
}

func (w *World) CheckFirstFact(r int, h Agg) error {
	a, err := First(h)
	if err != nil {
		return fmt.Errorf("remark #%d, going to the first fact: %w", r, err)
	}
	return w.isRemark(fmt.Sprintf("first fact of remark #%d", r), a, w.M.FirstFact(r))
}

func (w *World) CheckStory(r int, h Agg, g int) error {
	s, err := w.Render(h, g)
	if err != nil {
		return fmt.Errorf("rendering the story of remark #%d: %w", r, err)
	}
	if want := w.M.Text(r); s != want {
		return fmt.Errorf("story of remark #%d reads %q, expected %q", r, s, want)
	}
	return nil
}

// CheckAll compares everything that can be read at remark r through handle h.
func (w *World) CheckAll(r int, h Agg, g int) error {
	w.Spy.Arm(0, false, false)
	if err := w.CheckText(r, h); err != nil {
		return err
	}
	if err := w.CheckFirstFact(r, h); err != nil {
		return err
	}
	if err := w.CheckNextFact(r, h); err != nil {
		return err
	}
	if err := w.CheckNextStory(r, h); err != nil {
		return err
	}
	if err := w.CheckNextRemark(r, h); err != nil {
		return err
	}
	if w.Light && w.M.FirstFact(r) != r {
		return nil // rendering starts at the first fact
	}
	return w.CheckStory(r, h, g)
}

// CheckEvery runs a check for every remark, by its handle (ways&1), fetched from
// graph g (ways&2) and fetched from a freshly opened graph (ways&4).
func (w *World) CheckEvery(ways, g int, check func(r int, h Agg) error) error {
	fresh := -1
	if ways&4 != 0 {
		w.Open()
		fresh = len(w.Graphs) - 1
		defer func() { w.Graphs = w.Graphs[:fresh] }()
	}
	for r := range w.M.Remarks {
		for way, on := range []int{-1, g, fresh} {
			if ways&(1<<way) == 0 {
				continue
			}
			w.Spy.Arm(0, false, false)
			h := w.H[r]
			name := "its handle"
			if on >= 0 {
				name = "its identifier"
				if way == 2 {
					name = "its identifier on a reopened graph"
				}
				var err error
				h, err = w.Fetch(r, on)
				if err != nil {
					return fmt.Errorf("fetching remark #%d by %s: %w", r, name, err)
				}
			}
			if err := check(r, h); err != nil {
				return fmt.Errorf("by %s: %w", name, err)
			}
		}
	}
	return nil
}

// Outcome is everything that can be read at a remark, in terms of remark
// indexes, with failures as values. Two runs can be compared by it.
func (w *World) Outcome(h Agg, g int, index func(uint) int) string {
	w.Spy.Arm(0, false, false)
	show := func(a Agg, err error) string {
		if err != nil {
			return failure(err)
		}
		id, err := ID(a)
		if err != nil {
			return failure(err)
		}
		o, p, err := Texts(a)
		if err != nil {
			return failure(err)
		}
		return fmt.Sprintf("#%d(%q,%q)", index(id), o, p)
	}
	out := "self=" + show(h, nil)
	f, err := First(h)
	out += " first=" + show(f, err)
	for _, d := range Dirs {
		b, err := d.Ask(h)
		if err != nil {
			out += " " + d.Name + "?=" + failure(err)
		} else {
			out += fmt.Sprintf(" %s?=%v", d.Name, b)
		}
		a, err := d.Move(h)
		out += " " + d.Name + "=" + show(a, err)
	}
	s, err := w.Render(h, g)
	if err != nil {
		return out + " text=" + failure(err)
	}
	return out + fmt.Sprintf(" text=%q", s)
}

func failure(err error) string {
	if IsCrash(err) {
		return "crash"
	}
	return "error"
}

// NewWorldOn opens a graph on a spy that may be shared.
func NewWorldOn(s *Spy) *World {
	w := &World{Spy: s, M: &Model{}}
	w.Open()
	return w
}
