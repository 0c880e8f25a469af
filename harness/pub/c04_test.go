package pub

import (
	"fmt"
	"strings"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// expected counts per class node, 1 to 8
func vocabulary(m *kit.Model) [9]int {
	chars, words, phrases, details := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[[2]string]bool{}
	for _, r := range m.Remarks {
		details[[2]string{r.O, r.P}] = true
		for _, text := range []string{r.O, r.P} {
			ws := strings.Split(text, " ")
			for i := range ws {
				phrases[strings.Join(ws[:i+1], " ")] = true
				rs := []rune(ws[i])
				for j := range rs {
					words[string(rs[:j+1])] = true
					bits := fmt.Sprintf("%b", rs[j])
					for k := range bits {
						chars[bits[:k+1]] = true
					}
				}
			}
		}
	}
	return [9]int{0, 2, len(chars), len(words), len(phrases), len(details), len(m.Remarks), len(m.Facts), len(m.Stories)}
}

var classNames = [9]string{"", "bits", "character prefixes", "word prefixes", "phrase prefixes", "details", "remarks", "facts", "stories"}

var propC04 = kit.Prop[storeAndSteps]{
	ID:   "C04",
	Rule: "a case is a history of 1-10 additions, then stored again word for word; after every addition the members of the eight classes are counted against the sets of prefixes, pairs, remarks, facts and stories of the model, and repeated additions must all create the same number of nodes per kind of operation; non-trivial: two different texts begin with the same character",
	Gen: func(t *rapid.T) storeAndSteps {
		v := kit.DrawVocabulary(t)
		h := kit.History{Long: true, Bulk: true, Min: 1, Max: 10, ByID: true, Graphs: 2,
			Ops: []kit.Choice{{"story", 3}, {"remark", 3}, {"fact", 3}, {"child", 2}, {"open", 1}}}
		return storeAndSteps{kit.DrawStore(t, true, false), h.Draw(t, v)}
	},
	Exec: func(c storeAndSteps, cov *kit.Cov) error {
		w := kit.NewWorld(c.Store.New())
		if overlapping(c.Steps) {
			cov.NonTrivial()
		}
		labelOps(cov, c.Steps)
		count := func() error {
			if len(w.M.Remarks) == 0 {
				return nil
			}
			want := vocabulary(w.M)
			for class := 1; class <= 8; class++ {
				members, err := w.Spy.Inner.ReadSources(uint(class))
				if err != nil {
					return err
				}
				if len(members) != want[class] {
					return fmt.Errorf("%d %s stored, %d expected", len(members), classNames[class], want[class])
				}
			}
			return nil
		}
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
			if !kit.Due(i, len(c.Steps)) {
				continue
			}
			if err := count(); err != nil {
				return fmt.Errorf("after step %d: %w", i, err)
			}
		}
		// again, everything known: fixed bookkeeping only
		fixed := map[string]int{}
		for i, s := range c.Steps {
			if s.Op == "open" {
				continue
			}
			if s.Op == "remark" {
				// the object comes from the remark the step works on, keep it
				s.On = mod(s.On, max(1, madeBefore(c.Steps, i)))
			}
			before := w.Spy.Creates
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("repeated step %d: %w", i, err)
			}
			grown := w.Spy.Creates - before
			if was, ok := fixed[s.Op]; ok && was != grown {
				return fmt.Errorf("repeated step %d, %s, creates %d nodes where another repeated %s created %d", i, s.Show(), grown, s.Op, was)
			}
			fixed[s.Op] = grown
			if !kit.Due(i, len(c.Steps)) {
				continue
			}
			if err := count(); err != nil {
				return fmt.Errorf("after repeated step %d: %w", i, err)
			}
		}
		return nil
	},
}

// madeBefore is the number of remarks made by the steps before i.
func madeBefore(steps []kit.Step, i int) int {
	n := 0
	for _, s := range steps[:i] {
		if s.Op == "story" || (s.Op != "open" && n > 0) {
			n++
		}
	}
	return n
}

func mod(i, n int) int { return ((i % n) + n) % n }

func TestC04(t *testing.T) { kit.Run(t, "main", propC04) }
func FuzzC04(f *testing.F) { kit.Fuzz(f, "main", propC04) }
