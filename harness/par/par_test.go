package par

import (
	"fmt"
	"os"
	"testing"

	"github.com/mem-memov/semnet"
	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// parallelCase has several histories, each run by a goroutine of its own on a
// storage of its own.
type parallelCase struct {
	Stores    []kit.StoreSpec `json:"stores"`
	Histories [][]kit.Step    `json:"histories"`
}

// run makes a history and reads everything at every remark, as strings. It uses
// no atomics and locks, they would hide data races from the race detector.
func run(store kit.Store, steps []kit.Step) (out []string) {
	defer func() {
		if p := recover(); p != nil {
			out = append(out, fmt.Sprintf("panic: %v", p))
		}
	}()
	graphs := []*semnet.Graph{semnet.NewGraph(store)}
	var handles []kit.Agg
	for i, s := range steps {
		g := graphs[s.G%len(graphs)]
		var a kit.Agg
		var err error
		switch s.Op {
		case "open":
			graphs = append(graphs, semnet.NewGraph(store))
			continue
		case "story":
			var r semnet.Remark
			r, err = g.CreateStory(string(s.O), string(s.P))
			a = r.Aggregate
		default:
			if len(handles) == 0 {
				continue
			}
			h := handles[s.On%len(handles)]
			if s.Via == 1 {
				r, err := g.GetRemark(h.GetIdentifier())
				if err != nil {
					out = append(out, fmt.Sprintf("step %d: fetching: error", i))
					continue
				}
				h = r.Aggregate
			}
			switch s.Op {
			case "remark":
				a, err = h.AddRemarkToFact(string(s.P))
			case "fact":
				a, err = h.AddFactToStory(string(s.O), string(s.P))
			case "child":
				a, err = h.CreateChildStory(string(s.O), string(s.P))
			}
		}
		if err != nil {
			out = append(out, fmt.Sprintf("step %d: error", i))
			continue
		}
		handles = append(handles, a)
		out = append(out, fmt.Sprintf("step %d: %d", i, a.GetIdentifier()))
	}
	for i, h := range handles {
		g := graphs[i%len(graphs)]
		o, p, err := h.GetObjectAndProperty()
		line := fmt.Sprintf("remark %d: %q %q %v", i, o, p, err != nil)
		text, err := semnet.NewOutput(g).GetStory(semnet.Remark{Aggregate: h})
		line += fmt.Sprintf(" text %q %v", text, err != nil)
		first, err := h.GetFirstFact()
		line += " first " + show(first, err)
		for _, d := range kit.Dirs {
			has, err := d.Has(h)
			next, err2 := d.Get(h)
			line += fmt.Sprintf(" %s %v %v %s", d.Name, has, err != nil, show(next, err2))
		}
		out = append(out, line)
	}
	return out
}

func show(a kit.Agg, err error) string {
	if err != nil {
		return "error"
	}
	return fmt.Sprint(a.GetIdentifier())
}

var propC27 = kit.Prop[parallelCase]{
	ID:   "C27",
	Rule: "a case has 2-4 histories over one vocabulary, each with graphs and a storage of its own; all of them are run at the same time by a goroutine each, 4 times (with different numbers of storage accesses that let other goroutines go on), and each by itself; every run must give what the history gave alone, and the race detector must report nothing; non-trivial: at least 2 histories of 2 or more additions",
	Gen: func(t *rapid.T) parallelCase {
		v := kit.DrawVocabulary(t)
		h := kit.History{NoMass: true, Min: 1, Max: 6, ByID: true, Graphs: 2,
			Ops: []kit.Choice{{"story", 2}, {"remark", 3}, {"fact", 3}, {"child", 3}, {"open", 1}}}
		var c parallelCase
		for i, n := 0, kit.Int(2, 4).Draw(t, "storages"); i < n; i++ {
			c.Stores = append(c.Stores, kit.DrawStore(t, true, false))
			if i > 0 && kit.Int(0, 3).Draw(t, "twin") == 0 {
				c.Histories = append(c.Histories, c.Histories[0])
				continue
			}
			c.Histories = append(c.Histories, h.Draw(t, v))
		}
		return c
	},
	Exec: func(c parallelCase, cov *kit.Cov) error {
		var alone [][]string
		large := 0
		rounds := 4
		yields := []uint32{0, 2, 7, 40} // a storage access lets others go on one time in so many
		if os.Getenv("VERIF_REPLAY") != "" {
			rounds = 100 // when it shows depends on the schedule
		}
		for n := 0; n < rounds; n++ {
			before := races()
			start := make(chan struct{})
			type result struct {
				i   int
				out []string
			}
			results := make(chan result, len(c.Histories))
			for i := range c.Histories {
				store := &yielding{Store: c.Stores[i].New(), state: uint32(n*977+i*131+1) * 2654435761, every: yields[n%len(yields)]}
				go func(i int) {
					<-start
					results <- result{i, run(store, c.Histories[i])}
				}(i)
			}
			close(start)
			got := make([][]string, len(c.Histories))
			for range c.Histories {
				r := <-results
				got[r.i] = r.out
			}
			if races() != before {
				return fmt.Errorf("histories on storages of their own race for memory they share")
			}
			cov.Inner(1)
			if alone == nil { // after the first round, so that nothing is prepared for it
				for i, steps := range c.Histories {
					alone = append(alone, run(c.Stores[i].New(), steps))
					if len(alone[i]) >= 4 {
						large++
					}
				}
			}
			for i := range got {
				if len(got[i]) != len(alone[i]) {
					return fmt.Errorf("history %d gives %d results, %d alone: %q", i, len(got[i]), len(alone[i]), got[i])
				}
				for k := range got[i] {
					if got[i][k] != alone[i][k] {
						return fmt.Errorf("history %d gives %q, alone %q", i, got[i][k], alone[i][k])
					}
				}
			}
		}
		cov.Label(fmt.Sprintf("%d storages", len(c.Stores)))
		if large >= 2 {
			cov.NonTrivial()
		}
		return nil
	},
}

func TestC27(t *testing.T) { kit.Run(t, "main", propC27) }
func FuzzC27(f *testing.F) { kit.Fuzz(f, "main", propC27) }
