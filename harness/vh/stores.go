package main

import (
	"github.com/roy2220/fsm"
	"github.com/roy2220/plainkv"
	"github.com/roy2220/plainkv/bptree"
	"github.com/roy2220/plainkv/hashmap"
)

type store interface {
	Set(k, v []byte, ret bool) []byte
	SetIfExists(k, v []byte, ret bool) ([]byte, bool)
	SetIfNotExists(k, v []byte, ret bool) ([]byte, bool)
	Clear(k []byte, ret bool) ([]byte, bool)
	Test(k []byte, ret bool) ([]byte, bool)
	Items() int
	Payload() int
	Shape() []int // slots, dirs / height, leaves, non-leaves
	Reopen() error
	Close() error
}

type ranger interface {
	RangeAsc(a, b []byte) bptree.Iterator
	RangeDesc(a, b []byte) bptree.Iterator
}

type scanner interface {
	Scan(c *hashmap.Cursor) ([]byte, []byte, bool)
}

// through the package plainkv

type topDict struct {
	*plainkv.Dict
	name string
}

func openTopDict(name string) (*topDict, error) {
	d, err := plainkv.OpenDict(name, true)
	return &topDict{d, name}, err
}
func (t *topDict) Items() int   { return t.Stats().NumberOfHashItems }
func (t *topDict) Payload() int { return t.Stats().PayloadSize }
func (t *topDict) Shape() []int {
	s := t.Stats()
	return []int{s.NumberOfHashSlots, s.NumberOfHashSlotDirs}
}
func (t *topDict) Reopen() error {
	if err := t.Dict.Close(); err != nil {
		return err
	}
	d, err := plainkv.OpenDict(t.name, false)
	t.Dict = d
	return err
}

type topOD struct {
	*plainkv.OrderedDict
	name string
}

func openTopOD(name string) (*topOD, error) {
	d, err := plainkv.OpenOrderedDict(name, true)
	return &topOD{d, name}, err
}
func (t *topOD) Items() int   { return t.Stats().NumberOfBPTreeRecords }
func (t *topOD) Payload() int { return t.Stats().PayloadSize }
func (t *topOD) Shape() []int {
	s := t.Stats()
	return []int{s.BPTreeHeight, s.NumberOfBPTreeLeafs, s.NumberOfBPTreeNonLeafs}
}
func (t *topOD) Reopen() error {
	if err := t.OrderedDict.Close(); err != nil {
		return err
	}
	d, err := plainkv.OpenOrderedDict(t.name, false)
	t.OrderedDict = d
	return err
}

// directly on a file storage

type lowHM struct {
	hm hashmap.HashMap
	fs fsm.FileStorage
}

func openLowHM(name string) (*lowHM, error) {
	s := &lowHM{}
	s.fs.Init()
	if err := s.fs.Open(name, true); err != nil {
		return nil, err
	}
	s.hm.Init(&s.fs)
	s.hm.Create()
	return s, nil
}
func (s *lowHM) Set(k, v []byte, ret bool) []byte {
	r, _ := s.hm.AddOrUpdateItem(k, v, ret)
	return r
}
func (s *lowHM) SetIfExists(k, v []byte, ret bool) ([]byte, bool)    { return s.hm.UpdateItem(k, v, ret) }
func (s *lowHM) SetIfNotExists(k, v []byte, ret bool) ([]byte, bool) { return s.hm.AddItem(k, v, ret) }
func (s *lowHM) Clear(k []byte, ret bool) ([]byte, bool)             { return s.hm.DeleteItem(k, ret) }
func (s *lowHM) Test(k []byte, ret bool) ([]byte, bool)              { return s.hm.HasItem(k, ret) }
func (s *lowHM) Scan(c *hashmap.Cursor) ([]byte, []byte, bool)       { return s.hm.FetchItem(c) }
func (s *lowHM) Items() int                                          { return s.hm.NumberOfItems() }
func (s *lowHM) Payload() int                                        { return s.hm.PayloadSize() }
func (s *lowHM) Shape() []int                                        { return []int{s.hm.NumberOfSlots(), s.hm.NumberOfSlotDirs()} }
func (s *lowHM) Reopen() error {
	a := s.hm.Store()
	s.hm.Load(a)
	return nil
}
func (s *lowHM) Close() error { return s.fs.Close() }

type lowBP struct {
	bp bptree.BPTree
	fs fsm.FileStorage
}

func openLowBP(name string) (*lowBP, error) {
	s := &lowBP{}
	s.fs.Init()
	if err := s.fs.Open(name, true); err != nil {
		return nil, err
	}
	s.bp.Init(&s.fs)
	s.bp.Create()
	return s, nil
}
func (s *lowBP) Set(k, v []byte, ret bool) []byte {
	r, _ := s.bp.AddOrUpdateRecord(k, v, ret)
	return r
}
func (s *lowBP) SetIfExists(k, v []byte, ret bool) ([]byte, bool) {
	return s.bp.UpdateRecord(k, v, ret)
}
func (s *lowBP) SetIfNotExists(k, v []byte, ret bool) ([]byte, bool) {
	return s.bp.AddRecord(k, v, ret)
}
func (s *lowBP) Clear(k []byte, ret bool) ([]byte, bool) { return s.bp.DeleteRecord(k, ret) }
func (s *lowBP) Test(k []byte, ret bool) ([]byte, bool)  { return s.bp.HasRecord(k, ret) }
func (s *lowBP) RangeAsc(a, b []byte) bptree.Iterator    { return s.bp.SearchForward(a, b) }
func (s *lowBP) RangeDesc(a, b []byte) bptree.Iterator   { return s.bp.SearchBackward(a, b) }
func (s *lowBP) Items() int                              { return s.bp.NumberOfRecords() }
func (s *lowBP) Payload() int                            { return s.bp.PayloadSize() }
func (s *lowBP) Shape() []int {
	return []int{s.bp.Height(), s.bp.NumberOfLeafs(), s.bp.NumberOfNonLeafs()}
}
func (s *lowBP) Reopen() error {
	a := s.bp.Store()
	s.bp.Load(a)
	return nil
}
func (s *lowBP) Close() error { return s.fs.Close() }
