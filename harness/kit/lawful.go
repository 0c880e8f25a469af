package kit

import "fmt"

// Lawful is a storage that notes calls no storage needs to expect. It carries
// them out or refuses them as Mem does.
type Lawful struct {
	*Mem
	Breach string // the first one
	Lax    bool   // reads of nodes the storage does not have are no breach
}

func (l *Lawful) note(format string, args ...any) {
	if l.Breach == "" {
		l.Breach = fmt.Sprintf(format, args...)
	}
}

func (l *Lawful) known(call string, ids ...uint) {
	for _, id := range ids {
		if read := call[:3] == "Rea" || call[:3] == "Get"; l.at(id) == nil && !(read && l.Lax) {
			l.note("%s of node %d, which the storage does not have", call, id)
		}
	}
}

func (l *Lawful) ReadSources(id uint) ([]uint, error) {
	l.known("ReadSources", id)
	return l.Mem.ReadSources(id)
}

func (l *Lawful) ReadTargets(id uint) ([]uint, error) {
	l.known("ReadTargets", id)
	return l.Mem.ReadTargets(id)
}

func (l *Lawful) GetReference(id uint) (uint, uint, error) {
	l.known("GetReference", id)
	return l.Mem.GetReference(id)
}

func (l *Lawful) SetReference(source, reference uint) error {
	l.known("SetReference", source, reference)
	if s := l.at(source); s != nil && s.next != 0 && s.next != reference {
		l.note("node %d refers to %d and is given the reference %d as well", source, s.next, reference)
	}
	if r := l.at(reference); r != nil && r.prev != 0 && r.prev != source {
		l.note("node %d is referred to by %d and now by %d as well", reference, r.prev, source)
	}
	return l.Mem.SetReference(source, reference)
}

func (l *Lawful) Connect(source, target uint) error {
	l.known("Connect", source, target)
	return l.Mem.Connect(source, target)
}

func (l *Lawful) Disconnect(source, target uint) error {
	l.note("Disconnect of %d and %d", source, target)
	return l.Mem.Disconnect(source, target)
}

func (l *Lawful) Delete(id uint) error {
	l.note("Delete of %d", id)
	return l.Mem.Delete(id)
}
