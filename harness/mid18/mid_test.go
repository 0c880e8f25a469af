package mid18

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/concrete/character"
	"github.com/mem-memov/semnet/internal/concrete/detail"
	"github.com/mem-memov/semnet/internal/concrete/fact"
	"github.com/mem-memov/semnet/internal/concrete/phrase"
	"github.com/mem-memov/semnet/internal/concrete/remark"
	"github.com/mem-memov/semnet/internal/concrete/story"
	"github.com/mem-memov/semnet/internal/concrete/word"
	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

type nodeCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []kit.Step    `json:"steps"`
}

// view is what an item shows: its nodes and the results of its reads.
type view struct {
	nodes []uint
	reads []string
}

func show(v interface{}, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprint(v)
}

// kinds: how an item is read by each of its nodes, class node first.
type kind struct {
	name  string
	class uint
	read  func(s kit.Store, way int, node uint) (view, error)
	ways  int

	must  []int  // reads that succeed
	pairs []pair // reads that succeed or not by what a question says
}

// pair: the read get succeeds when the read has says want, and, if that is yes,
// fails when it says no.
type pair struct {
	has, get int
	want     bool
}

var kinds = []kind{
	{"character", 2, func(s kit.Store, way int, n uint) (view, error) {
		st := character.NewStorage(s)
		e, err := []func(uint) (characterEntity, error){
			func(n uint) (characterEntity, error) { return st.ReadEntityByClass(n) },
			func(n uint) (characterEntity, error) { return st.ReadEntityByBit(n) },
			func(n uint) (characterEntity, error) { return st.ReadEntityByCharacter(n) },
			func(n uint) (characterEntity, error) { return st.ReadEntityByWord(n) },
		}[way](n)
		if err != nil {
			return view{}, err
		}
		v := view{nodes: []uint{e.GetClass(), e.GetBit(), e.GetCharacter(), e.GetWord()}}
		v.reads = append(v.reads, show(e.GetTargetBit()), show(e.GetTargetCharacters()), show(e.HasSourceCharacter()),
			show(e.GetSourceCharacter()), show(e.HasTargetWord()), show(e.GetTargetWord()))
		return v, nil
	}, 4, []int{0, 1, 2, 4}, []pair{{2, 3, true}, {4, 5, true}}},
	{"word", 3, func(s kit.Store, way int, n uint) (view, error) {
		st := word.NewStorage(s)
		e, err := []func(uint) (wordEntity, error){
			func(n uint) (wordEntity, error) { return st.ReadEntityByClass(n) },
			func(n uint) (wordEntity, error) { return st.ReadEntityByCharacter(n) },
			func(n uint) (wordEntity, error) { return st.ReadEntityByWord(n) },
			func(n uint) (wordEntity, error) { return st.ReadEntityByPhrase(n) },
		}[way](n)
		if err != nil {
			return view{}, err
		}
		v := view{nodes: []uint{e.GetClass(), e.GetCharacter(), e.GetWord(), e.GetPhrase()}}
		v.reads = append(v.reads, show(e.GetTargetCharacter()), show(e.GetTargetWords()), show(e.HasSourceWord()),
			show(e.GetSourceWord()), show(e.HasTargetPhrase()), show(e.GetTargetPhrase()), show(e.GetSourceCharacter()))
		return v, nil
	}, 4, []int{0, 1, 2, 4}, []pair{{2, 3, true}, {4, 5, true}, {2, 6, false}}},
	{"phrase", 4, func(s kit.Store, way int, n uint) (view, error) {
		st := phrase.NewStorage(s)
		e, err := []func(uint) (phraseEntity, error){
			func(n uint) (phraseEntity, error) { return st.ReadEntityByClass(n) },
			func(n uint) (phraseEntity, error) { return st.ReadEntityByWord(n) },
			func(n uint) (phraseEntity, error) { return st.ReadEntityByPhrase(n) },
			func(n uint) (phraseEntity, error) { return st.ReadEntityByDetail(n) },
		}[way](n)
		if err != nil {
			return view{}, err
		}
		v := view{nodes: []uint{e.GetClass(), e.GetWord(), e.GetPhrase(), e.GetDetail()}}
		v.reads = append(v.reads, show(e.GetTargetWord()), show(e.GetTargetPhrases()), show(e.HasSourcePhrase()),
			show(e.GetSourcePhrase()), show(e.GetSourceDetails()), show(e.GetTargetDetails()), show(e.GetSourceWord()))
		return v, nil
	}, 4, []int{0, 1, 2, 4, 5}, []pair{{2, 3, true}, {2, 6, false}}},
	{"detail", 5, func(s kit.Store, way int, n uint) (view, error) {
		st := detail.NewStorage(s)
		e, err := []func(uint) (detailEntity, error){
			func(n uint) (detailEntity, error) { return st.ReadEntityByClass(n) },
			func(n uint) (detailEntity, error) { return st.ReadEntityByPhrase(n) },
			func(n uint) (detailEntity, error) { return st.ReadEntityByRemark(n) },
		}[way](n)
		if err != nil {
			return view{}, err
		}
		v := view{nodes: []uint{e.GetClass(), e.GetPhrase(), e.GetRemark()}}
		o, p, err := e.GetObjectAndPropertyPhrases()
		v.reads = append(v.reads, show([]uint{o, p}, err))
		return v, nil
	}, 3, []int{0}, nil},
	{"remark", 6, func(s kit.Store, way int, n uint) (view, error) {
		st := remark.NewStorage(s)
		e, err := []func(uint) (remarkEntity, error){
			func(n uint) (remarkEntity, error) { return st.ReadEntityByClass(n) },
			func(n uint) (remarkEntity, error) { return st.ReadEntityByDetail(n) },
			func(n uint) (remarkEntity, error) { return st.ReadEntityByPosition(n) },
			func(n uint) (remarkEntity, error) { return st.ReadEntityByFact(n) },
		}[way](n)
		if err != nil {
			return view{}, err
		}
		v := view{nodes: []uint{e.GetClass(), e.GetDetail(), e.GetPosition(), e.GetFact()}}
		v.reads = append(v.reads, show(e.GetSourceDetail()), show(e.GetTargetFact()), show(e.HasNextRemark()), show(e.GetNextRemark()))
		return v, nil
	}, 4, []int{0, 1, 2}, []pair{{2, 3, true}}},
	{"fact", 7, func(s kit.Store, way int, n uint) (view, error) {
		st := fact.NewStorage(s)
		e, err := []func(uint) (factEntity, error){
			func(n uint) (factEntity, error) { return st.ReadEntityByClass(n) },
			func(n uint) (factEntity, error) { return st.ReadEntityByRemark(n) },
			func(n uint) (factEntity, error) { return st.ReadEntityByPosition(n) },
			func(n uint) (factEntity, error) { return st.ReadEntityByStory(n) },
		}[way](n)
		if err != nil {
			return view{}, err
		}
		v := view{nodes: []uint{e.GetClass(), e.GetRemark(), e.GetPosition(), e.GetStory()}}
		v.reads = append(v.reads, show(e.HasTargetFact()), show(e.GetTargetFact()), show(e.GetFirstRemark()), show(e.GetTargetStory()))
		return v, nil
	}, 4, []int{0, 2, 3}, []pair{{0, 1, true}}},
	{"story", 8, func(s kit.Store, way int, n uint) (view, error) {
		st := story.NewStorage(s)
		e, err := []func(uint) (storyEntity, error){
			func(n uint) (storyEntity, error) { return st.ReadEntityByClass(n) },
			func(n uint) (storyEntity, error) { return st.ReadEntityByFact(n) },
			func(n uint) (storyEntity, error) { return st.ReadEntityByPosition(n) },
			func(n uint) (storyEntity, error) { return st.ReadEntityByTree(n) },
		}[way](n)
		if err != nil {
			return view{}, err
		}
		v := view{nodes: []uint{e.GetClass(), e.GetFact(), e.GetPosition(), e.GetTree()}}
		v.reads = append(v.reads, show(e.HasTargetPosition()), show(e.GetTargetPosition()), show(e.GetTargetFact()),
			show(e.HasTargetTree()), show(e.GetTargetTree()), show(e.HasSourceTree()), show(e.GetSourceTree()))
		return v, nil
	}, 4, []int{0, 2, 3, 5}, []pair{{0, 1, true}, {3, 4, true}, {5, 6, true}}},
}

type characterEntity interface {
	GetClass() uint
	GetBit() uint
	GetCharacter() uint
	GetWord() uint
	GetTargetBit() (uint, error)
	GetTargetCharacters() ([]uint, error)
	HasSourceCharacter() (bool, error)
	GetSourceCharacter() (uint, error)
	HasTargetWord() (bool, error)
	GetTargetWord() (uint, error)
}
type wordEntity interface {
	GetClass() uint
	GetCharacter() uint
	GetWord() uint
	GetPhrase() uint
	GetTargetCharacter() (uint, error)
	GetTargetWords() ([]uint, error)
	HasSourceWord() (bool, error)
	GetSourceWord() (uint, error)
	HasTargetPhrase() (bool, error)
	GetTargetPhrase() (uint, error)
	GetSourceCharacter() (uint, error)
}
type phraseEntity interface {
	GetClass() uint
	GetWord() uint
	GetPhrase() uint
	GetDetail() uint
	GetTargetWord() (uint, error)
	GetTargetPhrases() ([]uint, error)
	HasSourcePhrase() (bool, error)
	GetSourcePhrase() (uint, error)
	GetSourceDetails() ([]uint, error)
	GetTargetDetails() ([]uint, error)
	GetSourceWord() (uint, error)
}
type detailEntity interface {
	GetClass() uint
	GetPhrase() uint
	GetRemark() uint
	GetObjectAndPropertyPhrases() (uint, uint, error)
}
type remarkEntity interface {
	GetClass() uint
	GetDetail() uint
	GetPosition() uint
	GetFact() uint
	GetSourceDetail() (uint, error)
	GetTargetFact() (uint, error)
	HasNextRemark() (bool, error)
	GetNextRemark() (uint, error)
}
type factEntity interface {
	GetClass() uint
	GetRemark() uint
	GetPosition() uint
	GetStory() uint
	HasTargetFact() (bool, error)
	GetTargetFact() (uint, error)
	GetFirstRemark() (uint, error)
	GetTargetStory() (uint, error)
}
type storyEntity interface {
	GetClass() uint
	GetFact() uint
	GetPosition() uint
	GetTree() uint
	HasTargetPosition() (bool, error)
	GetTargetPosition() (uint, error)
	GetTargetFact() (uint, error)
	HasTargetTree() (bool, error)
	GetTargetTree() (uint, error)
	HasSourceTree() (bool, error)
	GetSourceTree() (uint, error)
}

var prop = kit.Prop[nodeCase]{
	ID:   "C18",
	Rule: "a case stores 1-8 additions, chained remarks included; every stored item of the seven kinds is read by each of its nodes, and all readings must show the same nodes (as the references of the storage tell) and give the same results from every read of the item, which succeeds where the item has what is read; executions count the readings; non-trivial: all seven kinds, and at least 3 facts",
	Gen: func(t *rapid.T) nodeCase {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, Min: 1, Max: 8, ByID: true, Ops: []kit.Choice{{"story", 2}, {"remark", 3}, {"fact", 3}, {"child", 3}, {"link", 2}}}
		spec := kit.DrawStore(t, true, true)
		if spec.Order == "shuffle" {
			spec.Order = "reverse" // lists are compared as listed
		}
		return nodeCase{Store: spec, Steps: h.Draw(t, v)}
	},
	Exec: func(c nodeCase, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		}
		if len(w.M.Facts) >= 3 {
			cov.NonTrivial()
		}
		for _, k := range kinds {
			members, err := w.Spy.Inner.ReadSources(k.class)
			if err != nil {
				return err
			}
			if len(members) == 0 {
				return fmt.Errorf("no %s is stored", k.name)
			}
			for _, m := range members {
				// the nodes of the item: a chain of references from the class node
				nodes := []uint{m}
				for len(nodes) < k.ways {
					_, n, err := w.Spy.Inner.GetReference(nodes[len(nodes)-1])
					if err != nil {
						return err
					}
					if n == 0 {
						break
					}
					nodes = append(nodes, n)
				}
				if len(nodes) != k.ways {
					return fmt.Errorf("%s at %d has %d nodes", k.name, m, len(nodes))
				}
				var first view
				for way, n := range nodes {
					cov.Inner(1)
					w.Spy.Arm(0, false, false)
					var got view
					err := kit.Guard(fmt.Sprintf("reading a %s by its node %d", k.name, way), func() (err error) {
						got, err = k.read(w.Spy, way, n)
						return
					})
					if err != nil {
						return fmt.Errorf("%s at %d, by node %d: %w", k.name, m, way, err)
					}
					for i := range nodes {
						if got.nodes[i] != nodes[i] {
							return fmt.Errorf("%s at %d, by node %d: nodes %v, expected %v", k.name, m, way, got.nodes, nodes)
						}
					}
					if way == 0 {
						for _, i := range k.must {
							if got.reads[i] == "error" {
								return fmt.Errorf("%s at %d: read %d fails", k.name, m, i)
							}
						}
						for _, p := range k.pairs {
							there, fails := got.reads[p.has] == fmt.Sprint(p.want), got.reads[p.get] == "error"
							if there && fails || !there && !fails && p.want {
								return fmt.Errorf("%s at %d: read %d says %s, read %d gives %s", k.name, m, p.has, got.reads[p.has], p.get, got.reads[p.get])
							}
						}
						first = got
						continue
					}
					for i := range first.reads {
						if first.reads[i] != got.reads[i] {
							return fmt.Errorf("%s at %d: read %d gives %s by node %d, %s by its class node", k.name, m, i, got.reads[i], way, first.reads[i])
						}
					}
				}
			}
			cov.Label(k.name)
		}
		return nil
	},
}

func TestC18(t *testing.T) { kit.Run(t, "main", prop) }
func FuzzC18(f *testing.F) { kit.Fuzz(f, "main", prop) }
