package par

import (
	"runtime"

	"github.com/mem-memov/semnet/internal/verifharness/kit"
)

// yielding lets other goroutines go on at many of the accesses to a storage.
// It synchronises with nothing.
type yielding struct {
	kit.Store
	state uint32
	every uint32
}

func (y *yielding) yield() {
	if y.every == 0 {
		return
	}
	y.state ^= y.state << 13
	y.state ^= y.state >> 17
	y.state ^= y.state << 5
	if y.state%y.every == 0 {
		runtime.Gosched()
	}
}

func (y *yielding) Has(source uint) (bool, error) {
	y.yield()
	return y.Store.Has(source)
}

func (y *yielding) Create() (uint, error) {
	y.yield()
	return y.Store.Create()
}

func (y *yielding) ReadSources(target uint) ([]uint, error) {
	y.yield()
	return y.Store.ReadSources(target)
}

func (y *yielding) ReadTargets(source uint) ([]uint, error) {
	y.yield()
	return y.Store.ReadTargets(source)
}

func (y *yielding) SetReference(source uint, reference uint) error {
	y.yield()
	return y.Store.SetReference(source, reference)
}

func (y *yielding) GetReference(source uint) (uint, uint, error) {
	y.yield()
	return y.Store.GetReference(source)
}

func (y *yielding) Connect(source uint, target uint) error {
	y.yield()
	return y.Store.Connect(source, target)
}

func (y *yielding) Disconnect(source uint, target uint) error {
	y.yield()
	return y.Store.Disconnect(source, target)
}

func (y *yielding) Delete(source uint) error {
	y.yield()
	return y.Store.Delete(source)
}
