package pub

import (
	"fmt"
	"testing"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
	"pgregory.net/rapid"
)

// faultCase is a history, then one operation every access of which fails in turn.
type faultCase struct {
	Store kit.StoreSpec `json:"store"`
	Steps []kit.Step    `json:"steps"`
	Warm  bool          `json:"warm"` // the graph has already read and written
	Mode  string        `json:"mode"` // "once", "from then on", "after" (takes effect, then reports)
	Op    string        `json:"op"`   // an addition in Last, or a read
	Last  kit.Step      `json:"last"`
}

var readOps = []string{"get", "text", "first", "has remark", "has fact", "has story", "next remark", "next fact", "next story", "render"}

func genFaultCase(t *rapid.T, max int, reads bool) faultCase {
	v := kit.DrawVocabulary(t)
	h := kit.History{Long: true, NoMass: true, Min: 0, Max: max, Ops: []kit.Choice{{"story", 1}, {"remark", 3}, {"fact", 4}, {"child", 4}, {"link", 2}}}
	c := faultCase{Store: kit.DrawStore(t, false, true), Steps: h.Draw(t, v)}
	c.Warm = rapid.Bool().Draw(t, "warm")
	c.Mode = kit.One([]string{"once", "from then on", "after"}).Draw(t, "mode")
	ops := []string{"story", "remark", "fact", "child"}
	if reads {
		ops = append(ops, readOps...)
	}
	c.Op = kit.One(ops).Draw(t, "lastOp")
	if len(c.Steps) == 0 {
		c.Op = "story" // the very first use
	}
	c.Last = kit.Step{Op: c.Op}
	h.Max = 6
	h.Fill(t, &v, &c.Last)
	return c
}

// runRead runs a read operation. For "get" h is not used.
func runRead(w *kit.World, g int, op string, h kit.Agg, id uint) error {
	switch op {
	case "get":
		return kit.Guard("GetRemark", func() error { _, err := w.Graph(g).GetRemark(id); return err })
	case "text":
		_, _, err := kit.Texts(h)
		return err
	case "first":
		_, err := kit.First(h)
		return err
	case "render":
		_, err := w.Render(h, g)
		return err
	}
	for _, d := range kit.Dirs {
		if op == "has "+d.Name {
			_, err := d.Ask(h)
			return err
		}
		if op == "next "+d.Name {
			_, err := d.Move(h)
			return err
		}
	}
	panic("unknown operation " + op)
}

func isRead(op string) bool { return op != "story" && op != "remark" && op != "fact" && op != "child" }

// warm makes a graph use its caches: classes and bits.
func warm(w *kit.World, g int) error {
	if len(w.M.Remarks) == 0 {
		return nil
	}
	h, err := w.Fetch(0, g)
	if err != nil {
		return err
	}
	_, _, err = kit.Texts(h)
	return err
}

var propC09 = kit.Prop[faultCase]{
	ID:   "C09",
	Rule: "a case is a history of 0-7 additions and one operation, writing or reading; the operation is run once for every storage access it makes, with that access failing (once, from then on, or after taking effect), on a copy of the storage and a fresh or used graph; each run must return an error; executions count these runs; non-trivial: the operation makes at least 5 accesses",
	Gen:  func(t *rapid.T) faultCase { return genFaultCase(t, 7, true) },
	Exec: func(c faultCase, cov *kit.Cov) error {
		w := kit.NewWorld(kit.NewMem(c.Store))
		for i, s := range c.Steps {
			if _, err := w.Add(s); err != nil {
				return fmt.Errorf("step %d: %w", i, err)
			}
		}
		if c.Op != "story" && len(w.M.Remarks) == 0 {
			return nil
		}
		if len(w.M.Remarks) == 0 {
			cov.Label("first use of an empty storage")
		}
		base := w.Spy.Mem()
		names := w.Spy
		for k := 1; ; k++ {
			w.Spy.Inner = base.Clone()
			w.Open()
			g := len(w.Graphs) - 1
			if c.Warm {
				if err := warm(w, g); err != nil {
					return fmt.Errorf("reading before the failure: %w", err)
				}
			}
			on := -1
			var h kit.Agg
			var err error
			if c.Op != "story" {
				on = w.Target(c.Last)
				h, err = w.Fetch(on, g)
				if err != nil {
					return fmt.Errorf("fetching before the failure: %w", err)
				}
			}
			names.Arm(k, c.Mode == "from then on", c.Mode == "after")
			names.Tracing = true
			switch {
			case c.Op == "story":
				err = kit.Guard("CreateStory", func() error {
					_, err := w.Graph(g).CreateStory(string(c.Last.O), string(c.Last.P))
					return err
				})
			case isRead(c.Op):
				err = runRead(w, g, c.Op, h, w.M.Remarks[on].ID)
			default:
				_, err = kit.CallOn(h, c.Last)
			}
			fired := names.Fired
			names.Tracing = false
			n := names.Disarm()
			w.Graphs = w.Graphs[:g]
			if !fired {
				cov.Inner(k)
				cov.Label("op:" + c.Op)
				cov.Label("mode:" + c.Mode)
				if n >= 5 {
					cov.NonTrivial()
				}
				return nil
			}
			at := names.Trace[k-1]
			if err == nil {
				return fmt.Errorf("%s on #%d succeeds although storage access %d (%s) failed", c.Op, on, k, at)
			}
			if kit.IsCrash(err) {
				return fmt.Errorf("%s on #%d with storage access %d (%s) failing: %w", c.Op, on, k, at, err)
			}
		}
	},
}

func TestC09(t *testing.T) { kit.Run(t, "main", propC09) }
func FuzzC09(f *testing.F) { kit.Fuzz(f, "main", propC09) }
