package kit

import (
	"errors"
	"fmt"
	"sync/atomic"
)

// ErrFault is the storage failure the checks inject.
var ErrFault = errors.New("injected storage failure")

type budgetExceeded struct{ calls int }

// CallBudget bounds the storage calls of one operation. It is far above what any
// generated case needs and turns an endless loop into a reproducible failure.
const CallBudget = 3000000

// operations counts the guarded operations, accesses all storage accesses.
var operations, accesses atomic.Int64

// Spy wraps a storage. It counts accesses, can make the k-th one fail, and can be
// pointed at another storage while graphs keep using it.
type Spy struct {
	Inner   Store
	calls   int
	spent   int   // accesses of the running operation
	op      int64 // which one that is
	failAt  int   // 1-based, 0 never
	failing int   // this writing access fails, 1-based, 0 never
	written int   // writing accesses since Arm
	sticky  bool  // fail every access from failAt on
	after   bool  // the failing access takes effect and then reports the failure
	Fired   bool
	Effort  int    // accesses and nodes listed since Arm
	Late    string // a writing access after the failing one
	Deleted int    // Delete and Disconnect calls
	Creates int
	Writes  int      // Create, SetReference, Connect, Disconnect and Delete calls that got through
	Trace   []string // names of the accesses since Arm, when Tracing
	Tracing bool
}

func NewSpy(inner Store) *Spy { return &Spy{Inner: inner} }

// Arm starts counting afresh and makes access k fail (0: none).
func (s *Spy) Arm(k int, sticky, after bool) {
	s.calls, s.failAt, s.sticky, s.after, s.Fired = 0, k, sticky, after, false
	s.failing, s.written = 0, 0
	s.Late, s.Effort = "", 0
	s.Trace = s.Trace[:0]
}

// ArmWrite is Arm for the k-th writing access.
func (s *Spy) ArmWrite(k int, sticky, after bool) {
	s.Arm(0, sticky, after)
	s.failing = k
}

// Written is the number of writing accesses since Arm.
func (s *Spy) Written() int { return s.written }

// Disarm stops failing and returns the number of accesses since Arm.
func (s *Spy) Disarm() int {
	n := s.calls
	s.calls, s.failAt, s.failing = 0, 0, 0
	return n
}

func (s *Spy) hit(name string) (bool, error) {
	s.calls++
	s.Effort++
	if s.Tracing {
		s.Trace = append(s.Trace, name)
	}
	accesses.Add(1)
	if op := operations.Load(); op != s.op {
		s.op, s.spent = op, 0
	}
	s.spent++
	if s.spent > CallBudget {
		panic(budgetExceeded{s.spent})
	}
	writes := name != "Has" && name[:3] != "Rea" && name[:3] != "Get"
	if writes {
		s.written++
		if s.written == s.failing {
			s.failAt = s.calls
		}
	}
	if s.Fired && s.Late == "" && writes {
		s.Late = name
	}
	if s.failAt != 0 && (s.calls == s.failAt || (s.sticky && s.calls > s.failAt)) {
		s.Fired = true
		return s.after, fmt.Errorf("%w at %s", ErrFault, name)
	}
	return true, nil
}

func (s *Spy) Has(a uint) (bool, error) {
	do, ferr := s.hit("Has")
	if !do {
		return false, ferr
	}
	r, err := s.Inner.Has(a)
	if ferr != nil {
		return false, ferr
	}
	return r, err
}

func (s *Spy) Create() (uint, error) {
	do, ferr := s.hit("Create")
	if !do {
		return 0, ferr
	}
	s.Writes++
	s.Creates++
	r, err := s.Inner.Create()
	if ferr != nil {
		return 0, ferr
	}
	return r, err
}

func (s *Spy) ReadSources(a uint) ([]uint, error) {
	do, ferr := s.hit("ReadSources")
	if !do || ferr != nil {
		return []uint{}, ferr
	}
	list, err := s.Inner.ReadSources(a)
	s.Effort += len(list)
	return list, err
}

func (s *Spy) ReadTargets(a uint) ([]uint, error) {
	do, ferr := s.hit("ReadTargets")
	if !do || ferr != nil {
		return []uint{}, ferr
	}
	list, err := s.Inner.ReadTargets(a)
	s.Effort += len(list)
	return list, err
}

func (s *Spy) SetReference(a, b uint) error {
	do, ferr := s.hit("SetReference")
	if !do {
		return ferr
	}
	s.Writes++
	err := s.Inner.SetReference(a, b)
	if ferr != nil {
		return ferr
	}
	return err
}

func (s *Spy) GetReference(a uint) (uint, uint, error) {
	do, ferr := s.hit("GetReference")
	if !do || ferr != nil {
		return 0, 0, ferr
	}
	return s.Inner.GetReference(a)
}

func (s *Spy) Connect(a, b uint) error {
	do, ferr := s.hit("Connect")
	if !do {
		return ferr
	}
	s.Writes++
	err := s.Inner.Connect(a, b)
	if ferr != nil {
		return ferr
	}
	return err
}

func (s *Spy) Disconnect(a, b uint) error {
	do, ferr := s.hit("Disconnect")
	if !do {
		return ferr
	}
	s.Writes++
	s.Deleted++
	err := s.Inner.Disconnect(a, b)
	if ferr != nil {
		return ferr
	}
	return err
}

func (s *Spy) Delete(a uint) error {
	do, ferr := s.hit("Delete")
	if !do {
		return ferr
	}
	s.Writes++
	s.Deleted++
	err := s.Inner.Delete(a)
	if ferr != nil {
		return ferr
	}
	return err
}

// Mem returns the storage behind the spy when it is a Mem.
func (s *Spy) Mem() *Mem { return s.Inner.(*Mem) }

// Accesses counts the storage accesses of all graphs so far.
func Accesses() int { return int(accesses.Load()) }
