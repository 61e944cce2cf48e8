// Package fsm is a stand-in for github.com/roy2220/fsm that implements the
// documented contract of its FileStorage as hostilely as the contract allows:
//
//   - every Allocate/Free invalidates every accessor handed out before it: the
//     buffer moves, the old buffer is filled with poison (or unmapped, in
//     Protect mode, so that any later read or write faults);
//   - fresh space is filled with garbage and, for pooled space, is a little
//     larger than asked for; addresses are arbitrary, may lie above 4 GiB and
//     are reused early;
//   - releasing space twice, releasing with the wrong kind, or accessing
//     released space is recorded as a Fault and panics.
//
// "Files" live in memory, keyed by name; closing writes the spaces back.
package fsm

import (
	"fmt"
	"math/rand"
	"os"
	"syscall"
)

// Fault is what a broken use of the file storage panics with.
type Fault struct{ Kind, Msg string }

func (f *Fault) Error() string { return f.Kind + ": " + f.Msg }

// Config of the next FileStorage to be initialized.
type Config struct {
	Seed    int64
	Protect bool // unmap stale accessors
	Low     bool // small, dense addresses as in a small file
}

// Cfg is used by Init.
var Cfg Config

type space struct {
	data    []byte
	size    int
	aligned bool
	handed  bool
}

type image struct {
	spaces  map[int64][]byte
	aligned map[int64]bool
	sizes   map[int64]int
	primary int64
}

var disk = map[string]*image{}

// RemoveFile forgets a "file".
func RemoveFile(name string) { delete(disk, name) }

// FileStorage represents a file storage.
type FileStorage struct{ S *State }

// State of a strict file storage.
type State struct {
	cfg     Config
	rnd     *rand.Rand
	name    string
	open    bool
	spaces  map[int64]*space
	handed  []*space
	freed   []int64
	next    int64
	primary int64
	stale   [][]byte // poisoned buffers to check for late writes
	prot    [][]byte // protected mappings to unmap later
	Epoch   int
	Allocs  int
	Frees   int
	Faults  []*Fault
}

// Last is the state of the FileStorage initialized last.
var Last *State

// Init initializes the file storage and returns it.
func (fs *FileStorage) Init() *FileStorage {
	fs.S = &State{cfg: Cfg, rnd: rand.New(rand.NewSource(Cfg.Seed)), spaces: map[int64]*space{}, primary: -1, open: true}
	if Cfg.Low {
		fs.S.next = 4096
	} else {
		fs.S.next = 1<<32 + int64(fs.S.rnd.Intn(1<<20))*8192
	}
	Last = fs.S
	return fs
}

// Open opens a file storage on the given file.
func (fs *FileStorage) Open(fileName string, createFileIfNotExists bool) error {
	s := fs.S
	img := disk[fileName]
	if img == nil {
		if !createFileIfNotExists {
			return &os.PathError{Op: "open", Path: fileName, Err: os.ErrNotExist}
		}
		img = &image{primary: -1}
		disk[fileName] = img
	}
	s.name = fileName
	for a, d := range img.spaces {
		b := s.buf(len(d))
		copy(b, d)
		s.spaces[a] = &space{data: b, size: img.sizes[a], aligned: img.aligned[a]}
		if end := a + int64(len(d)); end > s.next {
			s.next = (end + 8191) &^ 8191
		}
	}
	s.primary = img.primary
	return nil
}

// Close closes the file storage.
func (fs *FileStorage) Close() error {
	s := fs.S
	s.bump()
	img := &image{spaces: map[int64][]byte{}, aligned: map[int64]bool{}, sizes: map[int64]int{}, primary: s.primary}
	for a, sp := range s.spaces {
		img.spaces[a] = append([]byte(nil), sp.data...)
		img.aligned[a] = sp.aligned
		img.sizes[a] = sp.size
	}
	disk[s.name] = img
	s.Release()
	s.open = false
	return nil
}

// Release gives up all memory.
func (s *State) Release() {
	if s.cfg.Protect {
		for _, sp := range s.spaces {
			syscall.Munmap(full(sp.data))
		}
		for _, b := range s.prot {
			syscall.Munmap(b)
		}
	}
	s.spaces = map[int64]*space{}
	s.prot = nil
	s.stale = nil
	s.handed = nil
}

func full(b []byte) []byte { return b[:cap(b)] }

func (s *State) buf(n int) []byte {
	if !s.cfg.Protect {
		return make([]byte, n)
	}
	m := (n + 4095) &^ 4095
	if m == 0 {
		m = 4096
	}
	b, err := syscall.Mmap(-1, 0, m, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	return b[:n]
}

func (s *State) fault(kind, format string, args ...interface{}) {
	f := &Fault{kind, fmt.Sprintf(format, args...)}
	s.Faults = append(s.Faults, f)
	panic(f)
}

const poison = 0xDB

func (s *State) invalidate(b []byte) {
	if s.cfg.Protect {
		b = full(b)
		syscall.Mprotect(b, syscall.PROT_NONE)
		s.prot = append(s.prot, b)
		if len(s.prot) > 4096 {
			for _, x := range s.prot[:2048] {
				syscall.Munmap(x)
			}
			s.prot = append([][]byte(nil), s.prot[2048:]...)
		}
		return
	}
	for i := range b {
		b[i] = poison
	}
	s.stale = append(s.stale, b)
}

// CheckStale looks for writes into invalidated accessors.
func (s *State) CheckStale() {
	for _, b := range s.stale {
		for _, x := range b {
			if x != poison {
				s.stale = nil
				s.fault("stale-write", "write through an accessor obtained before the last allocation or release")
			}
		}
	}
}

func (s *State) bump() {
	if !s.open {
		s.fault("use-after-close", "file storage used after Close")
	}
	s.CheckStale()
	s.stale = s.stale[:0]
	s.Epoch++
	for _, sp := range s.handed {
		sp.handed = false
		old := sp.data
		if sp.size >= 0 {
			sp.data = s.buf(len(old))
			copy(sp.data, old)
		}
		s.invalidate(old)
	}
	s.handed = s.handed[:0]
}

func (s *State) hand(sp *space) []byte {
	if !sp.handed {
		sp.handed = true
		s.handed = append(s.handed, sp)
	}
	return sp.data[:len(sp.data):len(sp.data)]
}

func (s *State) alloc(n, extra int, aligned bool) (int64, []byte) {
	if n < 0 {
		s.fault("bad-size", "allocation of %d bytes", n)
	}
	s.bump()
	s.Allocs++
	var addr int64
	if k := len(s.freed); k > 0 && s.rnd.Intn(2) == 0 {
		addr = s.freed[k-1]
		s.freed = s.freed[:k-1]
	} else {
		addr = s.next
		s.next += int64((n + extra + 8191) &^ 8191)
		if n+extra == 0 {
			s.next += 8192
		}
		if !s.cfg.Low && s.rnd.Intn(4) == 0 {
			s.next += int64(s.rnd.Intn(1<<24)) * 8192
		}
	}
	sp := &space{data: s.buf(n + extra), size: n, aligned: aligned}
	s.rnd.Read(sp.data)
	if s.spaces[addr] != nil {
		panic("strictfsm: address in use")
	}
	s.spaces[addr] = sp
	return addr, s.hand(sp)
}

func (s *State) free(addr int64, aligned bool) {
	sp := s.spaces[addr]
	if sp == nil {
		s.fault("bad-free", "release of space %d, which is not allocated", addr)
	}
	if sp.aligned != aligned {
		s.fault("bad-free", "release of space %d with the wrong kind", addr)
	}
	if !sp.handed {
		sp.handed = true
		s.handed = append(s.handed, sp)
	}
	sz := len(sp.data)
	sp.size = -1
	delete(s.spaces, addr)
	s.bump()
	s.Frees++
	if sz <= 8192 {
		s.freed = append(s.freed, addr)
	}
}

func (s *State) access(addr int64, aligned bool) []byte {
	if !s.open {
		s.fault("use-after-close", "file storage used after Close")
	}
	sp := s.spaces[addr]
	if sp == nil {
		s.fault("use-after-free", "access of space %d, which is not allocated", addr)
	}
	if sp.aligned != aligned {
		s.fault("bad-access", "access of space %d with the wrong kind", addr)
	}
	return s.hand(sp)
}

// AllocateSpace allocates space with the given size on the file.
func (fs *FileStorage) AllocateSpace(n int) (int64, []byte) {
	return fs.S.alloc(n, fs.S.rnd.Intn(16), false)
}

// FreeSpace releases the given space back to the file.
func (fs *FileStorage) FreeSpace(a int64) { fs.S.free(a, false) }

// AccessSpace returns an ephemeral accessor of the given space.
func (fs *FileStorage) AccessSpace(a int64) []byte { return fs.S.access(a, false) }

// AllocateAlignedSpace allocates aligned space.
func (fs *FileStorage) AllocateAlignedSpace(n int) (int64, []byte) { return fs.S.alloc(n, 0, true) }

// FreeAlignedSpace releases the given aligned space.
func (fs *FileStorage) FreeAlignedSpace(a int64) { fs.S.free(a, true) }

// AccessAlignedSpace returns an ephemeral accessor of the given aligned space.
func (fs *FileStorage) AccessAlignedSpace(a int64) []byte { return fs.S.access(a, true) }

// SetPrimarySpace set the primary space on the file.
func (fs *FileStorage) SetPrimarySpace(a int64) { fs.S.primary = a }

// PrimarySpace returns the primary space on the file.
func (fs *FileStorage) PrimarySpace() int64 { return fs.S.primary }

// Stats returns the stats of the file.
func (fs *FileStorage) Stats() Stats {
	n := 0
	for _, sp := range fs.S.spaces {
		n += len(sp.data)
	}
	return Stats{SpaceSize: n, UsedSpaceSize: n, MappedSpaceSize: n, AllocatedSpaceSize: n}
}

// Stats represents the stats about file space management.
type Stats struct {
	SpaceSize                 int
	UsedSpaceSize             int
	MappedSpaceSize           int
	AllocatedSpaceSize        int
	BlockAllocationBitmapSize int
	DismissedSpaceSize        int
}

// Live returns the addresses allocated and the size asked for each.
func (s *State) Live() map[int64]int {
	m := map[int64]int{}
	for a, sp := range s.spaces {
		m[a] = sp.size
	}
	return m
}

// Peek returns the present content of a space without handing it out.
func (s *State) Peek(a int64) []byte {
	if sp := s.spaces[a]; sp != nil {
		return append([]byte(nil), sp.data...)
	}
	return nil
}

// IsAligned tells the kind of a space.
func (s *State) IsAligned(a int64) bool { return s.spaces[a] != nil && s.spaces[a].aligned }
