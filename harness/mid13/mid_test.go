package mid13

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/concrete/class"
	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// kindStep creates an item of a kind, opens another repository, or uses a graph.
type kindStep struct {
	Do   string   `json:"do"` // "create", "open", "graph"
	Kind int      `json:"kind,omitempty"`
	Repo int      `json:"repo,omitempty"`
	Step kit.Step `json:"step"`
}

type kindCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []kindStep    `json:"steps"`
}

var kinds = []string{"bit", "character", "word", "phrase", "detail", "remark", "fact", "story"}

type entity interface {
	CreateBit() (uint, error)
	CreateCharacter() (uint, error)
	CreateWord() (uint, error)
	CreatePhrase() (uint, error)
	CreateDetail() (uint, error)
	CreateRemark() (uint, error)
	CreateFact() (uint, error)
	CreateStory() (uint, error)
	IsBit(uint) (bool, error)
	IsCharacter(uint) (bool, error)
	IsWord(uint) (bool, error)
	IsPhrase(uint) (bool, error)
	IsDetail(uint) (bool, error)
	IsRemark(uint) (bool, error)
	IsFact(uint) (bool, error)
	IsStory(uint) (bool, error)
	GetAllBits() ([]uint, error)
}

func create(e entity, k int) (uint, error) {
	return []func() (uint, error){e.CreateBit, e.CreateCharacter, e.CreateWord, e.CreatePhrase,
		e.CreateDetail, e.CreateRemark, e.CreateFact, e.CreateStory}[k]()
}

func is(e entity, k int, id uint) (bool, error) {
	return []func(uint) (bool, error){e.IsBit, e.IsCharacter, e.IsWord, e.IsPhrase,
		e.IsDetail, e.IsRemark, e.IsFact, e.IsStory}[k](id)
}

var prop = kit.Prop[kindCase]{
	ID:   "C13",
	Rule: "a case is a sequence of 1-20 creations of items of the eight kinds by several class repositories on one storage, mixed with ordinary use of a graph; after every step every item created is asked for every kind through every repository, and the bits are listed; non-trivial: items of at least 3 kinds and at least 5 items",
	Gen: func(t *rapid.T) kindCase {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, Min: 1, Max: 4, Ops: kit.AllOps}
		c := kindCase{Store: kit.DrawStore(t, true, true)}
		graph := rapid.Bool().Draw(t, "withGraph")
		n := kit.Int(1, 20).Draw(t, "steps")
		if kit.Int(0, 23).Draw(t, "long") == 23 {
			n = kit.Int(40, 200).Draw(t, "steps")
		}
		for i := 0; i < n; i++ {
			s := kindStep{Do: "create", Repo: kit.Int(0, 3).Draw(t, "repo")}
			switch x := kit.Int(0, 9).Draw(t, "do"); {
			case x == 0:
				s.Do = "open"
			case x <= 2 && graph:
				s.Do = "graph"
				s.Step.Op = kit.One([]string{"story", "remark", "fact", "child"}).Draw(t, "op")
				h.Fill(t, &v, &s.Step)
			default:
				s.Kind = kit.Int(0, 7).Draw(t, "kind")
				if graph && s.Kind == 0 {
					s.Kind = 1 // a graph knows exactly two bits, its own
				}
			}
			c.Steps = append(c.Steps, s)
		}
		return c
	},
	Exec: func(c kindCase, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		repos := []*class.Repository{class.NewRepository(w.Spy)}
		kindOf := map[uint]int{}
		var items []uint
		used := map[int]bool{}
		graphUsed := false
		for i, s := range c.Steps {
			w.Spy.Arm(0, false, false)
			switch s.Do {
			case "open":
				repos = append(repos, class.NewRepository(w.Spy))
			case "graph":
				if !w.Runnable(s.Step) {
					continue
				}
				r, err := w.Add(s.Step)
				if err != nil {
					return fmt.Errorf("step %d: %w", i, err)
				}
				graphUsed = true
				id := w.M.Remarks[r].ID
				if _, ok := kindOf[id]; ok {
					return fmt.Errorf("step %d: new remark has the number %d of another item", i, id)
				}
				kindOf[id] = 5
				items = append(items, id)
				cov.Label("graph used")
			default:
				err := kit.Guard("creating a "+kinds[s.Kind], func() error {
					e, err := repos[s.Repo%len(repos)].ProvideEntity()
					if err != nil {
						return err
					}
					id, err := create(e, s.Kind)
					if err != nil {
						return err
					}
					if _, ok := kindOf[id]; ok || id <= 8 {
						return fmt.Errorf("number %d is already used", id)
					}
					kindOf[id] = s.Kind
					items = append(items, id)
					used[s.Kind] = true
					return nil
				})
				if err != nil {
					return fmt.Errorf("step %d, creating a %s: %w", i, kinds[s.Kind], err)
				}
			}
			if len(c.Steps) > 20 && i != len(c.Steps)-1 && i%32 != 31 {
				continue
			}
			for n, repo := range append(append([]*class.Repository(nil), repos...), class.NewRepository(w.Spy)) {
				err := kit.Guard("asking for kinds", func() error {
					e, err := repo.ProvideEntity()
					if err != nil {
						return err
					}
					for _, id := range items {
						for k := range kinds {
							yes, err := is(e, k, id)
							if err != nil {
								return fmt.Errorf("asking whether item %d (%s) is a %s: %w", id, kinds[kindOf[id]], kinds[k], err)
							}
							if yes != (k == kindOf[id]) {
								return fmt.Errorf("item %d, created as %s, is a %s: %v", id, kinds[kindOf[id]], kinds[k], yes)
							}
						}
					}
					if graphUsed {
						// what the graph stored: the members of the class nodes
						for k := range kinds {
							members, err := w.Spy.ReadSources(uint(k + 1))
							if err != nil {
								return err
							}
							for _, id := range members {
								for q := range kinds {
									yes, err := is(e, q, id)
									if err != nil {
										return fmt.Errorf("asking whether member %d of the %s class is a %s: %w", id, kinds[k], kinds[q], err)
									}
									if yes != (q == k) {
										return fmt.Errorf("member %d of the %s class is a %s: %v", id, kinds[k], kinds[q], yes)
									}
								}
							}
						}
					}
					bits, err := e.GetAllBits()
					if err != nil {
						return err
					}
					want := 0
					for _, k := range kindOf {
						if k == 0 {
							want++
						}
					}
					if graphUsed {
						want += 2
					}
					if len(bits) != want {
						return fmt.Errorf("%d bits listed, %d created", len(bits), want)
					}
					seen := map[uint]bool{}
					for _, b := range bits {
						k, mine := kindOf[b]
						if seen[b] || (mine && k != 0) || (!mine && !graphUsed) {
							return fmt.Errorf("bits listed are %v", bits)
						}
						seen[b] = true
					}
					return nil
				})
				if err != nil {
					return fmt.Errorf("after step %d, repository %d: %w", i, n, err)
				}
			}
		}
		if len(used) >= 3 && len(items) >= 5 {
			cov.NonTrivial()
		}
		return nil
	},
}

func TestC13(t *testing.T) { kit.Run(t, "main", prop) }
func FuzzC13(f *testing.F) { kit.Fuzz(f, "main", prop) }
