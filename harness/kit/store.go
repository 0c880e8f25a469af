package kit

import (
	"fmt"
	"sort"

	"github.com/mem-memov/clew"
)

// Store is the storage contract the graph is built on.
type Store interface {
	Has(source uint) (bool, error)
	Create() (uint, error)
	ReadSources(target uint) ([]uint, error)
	ReadTargets(source uint) ([]uint, error)
	SetReference(source uint, reference uint) error
	GetReference(source uint) (uint, uint, error)
	Connect(source uint, target uint) error
	Disconnect(source uint, target uint) error
	Delete(source uint) error
}

// StoreSpec chooses a storage.
//
//	Kind   "clew" (the real one) or "mem"
//	Order  how mem lists links: "" insertion, "reverse", "shuffle"
//	Number how mem numbers nodes after the eighth: "" sequential, "gaps", "down", "scatter", "huge",
//	       "halves" and "strides" (many numbers agree in their lower bits)
type StoreSpec struct {
	Kind   string `json:"kind"`
	Order  string `json:"order,omitempty"`
	Number string `json:"number,omitempty"`
	Seed   uint32 `json:"seed,omitempty"`
}

func (s StoreSpec) New() Store {
	if s.Kind == "clew" {
		return clew.NewGraph(clew.NewSliceStorage())
	}
	return NewMem(s)
}

type memNode struct {
	sources, targets []uint
	prev, next       uint
}

// Mem is a plain in-memory storage: nodes, references and sets of links. It is
// strict, node 0 does not exist, and it can be copied and compared.
type Mem struct {
	spec  StoreSpec
	nodes []*memNode   // in order of creation, nil when deleted
	index map[uint]int // by number, only when numbering is not sequential
	reads uint32
}

func NewMem(spec StoreSpec) *Mem {
	m := &Mem{spec: spec}
	if spec.Number != "" {
		m.index = map[uint]int{}
	}
	return m
}

func (m *Mem) Clone() *Mem {
	c := &Mem{spec: m.spec, nodes: make([]*memNode, len(m.nodes), len(m.nodes)+200), reads: m.reads}
	links := 0
	for _, n := range m.nodes {
		if n != nil {
			links += len(n.sources) + len(n.targets)
		}
	}
	body := make([]memNode, len(m.nodes))
	pool := make([]uint, 0, links)
	// full slice expressions: appending to a copied list moves it
	copied := func(list []uint) []uint {
		at := len(pool)
		pool = append(pool, list...)
		return pool[at:len(pool):len(pool)]
	}
	for i, n := range m.nodes {
		if n != nil {
			body[i] = memNode{sources: copied(n.sources), targets: copied(n.targets), prev: n.prev, next: n.next}
			c.nodes[i] = &body[i]
		}
	}
	if m.index != nil {
		c.index = make(map[uint]int, len(m.index))
		for id, i := range m.index {
			c.index[id] = i
		}
	}
	return c
}

func (m *Mem) number(i uint) uint {
	if i <= 8 {
		return i
	}
	j := uint32(i - 9)
	switch m.spec.Number {
	case "gaps":
		return 9 + uint(m.spec.Seed%1000) + uint(j)*uint(2+m.spec.Seed%7)
	case "down":
		return uint(4000000000) - uint(m.spec.Seed%1000) - uint(j)
	case "huge":
		return ^uint(0) - uint(m.spec.Seed%1000)*3 - uint(j)*uint(1+m.spec.Seed%5)
	case "halves":
		// the same lower half for four or more nodes in a row, no number below the ninth
		n := 4 + uint(m.spec.Seed%29)
		return (9 + uint(j)/n) | (1+uint(j)%n)<<32
	case "strides":
		return (1 + uint(j)) << (8 + m.spec.Seed%25)
	case "scatter":
		// multiplication by an odd number and xor are bijections on 32 bits
		return uint((j*2654435761)^(m.spec.Seed*2246822519)) + 9
	}
	return i
}

// Order changes how links are listed. It tells whether that is a change.
func (m *Mem) Order(order string) bool {
	changed := m.spec.Order != order
	m.spec.Order = order
	return changed
}

// Coming gives the numbers of the next n nodes.
func (m *Mem) Coming(n int) []uint {
	var ids []uint
	for i := 1; i <= n; i++ {
		ids = append(ids, m.number(uint(len(m.nodes)+i)))
	}
	return ids
}

func (m *Mem) order(list []uint) []uint {
	out := append(make([]uint, 0, len(list)), list...)
	switch m.spec.Order {
	case "reverse":
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case "shuffle":
		m.reads++
		x := m.spec.Seed*2654435761 + m.reads*40503 + 1
		for i := len(out) - 1; i > 0; i-- {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			j := int(x % uint32(i+1))
			out[i], out[j] = out[j], out[i]
		}
	}
	return out
}

func (m *Mem) get(id uint) (*memNode, error) {
	i := int(id) - 1
	if m.index != nil {
		j, ok := m.index[id]
		if !ok {
			j = -1
		}
		i = j
	}
	if i < 0 || i >= len(m.nodes) || m.nodes[i] == nil {
		return nil, fmt.Errorf("mem: no node %d", id)
	}
	return m.nodes[i], nil
}

func (m *Mem) at(id uint) *memNode {
	n, err := m.get(id)
	if err != nil {
		return nil
	}
	return n
}

func (m *Mem) Has(id uint) (bool, error) { return m.at(id) != nil, nil }

func (m *Mem) Create() (uint, error) {
	i := len(m.nodes)
	id := m.number(uint(i + 1))
	if m.index != nil {
		if _, ok := m.index[id]; ok {
			panic("kit: numbering is not injective")
		}
		m.index[id] = i
	}
	m.nodes = append(m.nodes, &memNode{})
	return id, nil
}

func (m *Mem) ReadSources(id uint) ([]uint, error) {
	n, err := m.get(id)
	if err != nil {
		return nil, err
	}
	return m.order(n.sources), nil
}

func (m *Mem) ReadTargets(id uint) ([]uint, error) {
	n, err := m.get(id)
	if err != nil {
		return nil, err
	}
	return m.order(n.targets), nil
}

func (m *Mem) SetReference(source, reference uint) error {
	s, err := m.get(source)
	if err != nil {
		return err
	}
	r, err := m.get(reference)
	if err != nil {
		return err
	}
	s.next = reference
	r.prev = source
	return nil
}

func (m *Mem) GetReference(id uint) (uint, uint, error) {
	n, err := m.get(id)
	if err != nil {
		return 0, 0, err
	}
	return n.prev, n.next, nil
}

func has(list []uint, id uint) bool {
	for _, x := range list {
		if x == id {
			return true
		}
	}
	return false
}

func (m *Mem) Connect(source, target uint) error {
	s, err := m.get(source)
	if err != nil {
		return err
	}
	t, err := m.get(target)
	if err != nil {
		return err
	}
	// the shorter list decides: a class node has very many sources
	if has(s.targets, target) {
		return nil
	}
	s.targets = append(s.targets, target)
	t.sources = append(t.sources, source)
	return nil
}

func remove(list []uint, id uint) []uint {
	out := list[:0]
	for _, x := range list {
		if x != id {
			out = append(out, x)
		}
	}
	return out
}

func (m *Mem) Disconnect(source, target uint) error {
	s, err := m.get(source)
	if err != nil {
		return err
	}
	t, err := m.get(target)
	if err != nil {
		return err
	}
	s.targets = remove(s.targets, target)
	t.sources = remove(t.sources, source)
	return nil
}

func (m *Mem) Delete(id uint) error {
	n, err := m.get(id)
	if err != nil {
		return err
	}
	for _, t := range n.targets {
		if x := m.at(t); x != nil {
			x.sources = remove(x.sources, id)
		}
	}
	for _, s := range n.sources {
		if x := m.at(s); x != nil {
			x.targets = remove(x.targets, id)
		}
	}
	for i := range m.nodes {
		if m.nodes[i] == n {
			m.nodes[i] = nil
		}
	}
	return nil
}

// IDs lists all nodes in ascending order.
func (m *Mem) IDs() []uint {
	ids := make([]uint, 0, len(m.nodes))
	for i, n := range m.nodes {
		if n != nil {
			ids = append(ids, m.number(uint(i+1)))
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}

func sorted(list []uint) []uint {
	out := append([]uint(nil), list...)
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func same(a, b []uint) bool {
	if len(a) != len(b) {
		return false
	}
	equal := true
	for i := range a {
		equal = equal && a[i] == b[i]
	}
	if equal {
		return true
	}
	a, b = sorted(a), sorted(b)
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Diff tells the first difference between two storages, links as sets.
func (m *Mem) Diff(o *Mem) string {
	for _, id := range m.IDs() {
		if o.at(id) == nil {
			return fmt.Sprintf("node %d is gone", id)
		}
	}
	for _, id := range o.IDs() {
		a, b := m.at(id), o.at(id)
		if a == nil {
			return fmt.Sprintf("node %d is new", id)
		}
		if a.prev != b.prev || a.next != b.next {
			return fmt.Sprintf("reference of node %d was (%d,%d), is (%d,%d)", id, a.prev, a.next, b.prev, b.next)
		}
		if !same(a.targets, b.targets) {
			return fmt.Sprintf("targets of node %d were %v, are %v", id, a.targets, b.targets)
		}
		if !same(a.sources, b.sources) {
			return fmt.Sprintf("sources of node %d were %v, are %v", id, a.sources, b.sources)
		}
	}
	return ""
}

// Lost tells the first node, link or reference of m that is not in o as it was.
func (m *Mem) Lost(o *Mem) string {
	for _, id := range m.IDs() {
		a, b := m.at(id), o.at(id)
		if b == nil {
			return fmt.Sprintf("node %d was removed", id)
		}
		if a.next != 0 && a.next != b.next {
			return fmt.Sprintf("reference %d -> %d was redirected to %d", id, a.next, b.next)
		}
		if a.prev != 0 && a.prev != b.prev {
			return fmt.Sprintf("back reference %d -> %d was redirected to %d", id, a.prev, b.prev)
		}
		for _, t := range a.targets {
			if !has(b.targets, t) {
				return fmt.Sprintf("link %d -> %d was removed", id, t)
			}
		}
		for _, s := range a.sources {
			if !has(b.sources, s) {
				return fmt.Sprintf("link %d -> %d was removed", s, id)
			}
		}
	}
	return ""
}
