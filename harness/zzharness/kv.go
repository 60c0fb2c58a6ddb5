package zzharness

import (
	"bytes"
	"errors"

	rcdb "github.com/sourcenetwork/raccoondb"

	vx "github.com/sourcenetwork/zanzi/internal/zzvx"
)

// kvStore is the storage back end of the harnesses: an ordered key-value store with the contract of
// rcdb.KVStore.  Entries are unsorted; an iterator sorts what falls into its range.
type kvStore struct {
	keys, vals [][]byte
	open       int // iterators handed out and not closed
	writes     int // Set and Delete calls so far
	failAt     int // the write with this number does not happen (-1: never)
	failMode   int // 0: the process dies there; 1: the call returns an error
	failed     bool
	onOp       func()
	shared     bool // several callers at once
	ops        int  // storage operations so far
	faultAt    int  // the operation with this number fails (-1: none)
	persistent bool // ... and so do all later ones
	faulted    bool
}

type crashed struct{}

var errInjected = errors.New("injected storage failure")

func newKV() *kvStore { return &kvStore{failAt: -1, faultAt: -1} }

// memKV stands for the in-memory storage of the library (rcdb.NewMemKV), which is what runs in a replay.
func memKV() rcdb.KVStore { return newKV() }

func (s *kvStore) find(key []byte) int {
	for i := range s.keys {
		if bytes.Equal(s.keys[i], key) {
			return i
		}
	}
	return -1
}

// op counts a storage operation and says whether it fails.
func (s *kvStore) op() bool {
	if s.onOp != nil {
		s.onOp()
	}
	n := s.ops
	s.ops++
	if s.faulted {
		return s.persistent
	}
	if n == s.faultAt {
		s.faulted = true
		return true
	}
	return false
}

func (s *kvStore) write() bool {
	vx.Assert(s.open == 0 || s.shared, "storage written while an iterator is still open: the in-memory back end blocks forever")
	n := s.writes
	s.writes++
	if n == s.failAt {
		s.failed = true
		if s.failMode == 0 {
			panic(crashed{})
		}
		return false
	}
	return true
}

func (s *kvStore) Get(key []byte) ([]byte, error) {
	if s.op() {
		return nil, errInjected
	}
	if len(key) == 0 {
		panic("empty key")
	}
	if i := s.find(key); i >= 0 {
		return append([]byte{}, s.vals[i]...), nil
	}
	return nil, nil
}

func (s *kvStore) Has(key []byte) (bool, error) {
	if s.op() {
		return false, errInjected
	}
	return s.find(key) >= 0, nil
}

func (s *kvStore) Set(key, value []byte) error {
	if s.op() || !s.write() {
		return errInjected
	}
	k, v := append([]byte{}, key...), append([]byte{}, value...)
	if i := s.find(key); i >= 0 {
		s.vals[i] = v
		return nil
	}
	s.keys = append(s.keys, k)
	s.vals = append(s.vals, v)
	return nil
}

func (s *kvStore) Delete(key []byte) error {
	if s.op() || !s.write() {
		return errInjected
	}
	i := s.find(key)
	if i < 0 {
		return nil
	}
	keys := append([][]byte{}, s.keys[:i]...)
	vals := append([][]byte{}, s.vals[:i]...)
	s.keys = append(keys, s.keys[i+1:]...)
	s.vals = append(vals, s.vals[i+1:]...)
	return nil
}

func (s *kvStore) snapshot() *kvStore {
	return &kvStore{
		keys:   append([][]byte{}, s.keys...),
		vals:   append([][]byte{}, s.vals...),
		failAt: -1, faultAt: -1,
	}
}

func (s *kvStore) Iterator(start, end []byte) rcdb.Iterator {
	it := &kvIter{kv: s}
	it.fault = s.op()
	// every key between start and end shares their common prefix
	p := 0
	if end != nil {
		p = vx.CommonPrefixLen(start, end)
	}
	for i, k := range s.keys {
		if p > 0 {
			if !vx.HasPrefix(k, start[:p]) {
				continue
			}
		}
		if bytes.Compare(k[p:], start[p:]) < 0 {
			continue
		}
		if end != nil && bytes.Compare(k[p:], end[p:]) >= 0 {
			continue
		}
		it.insert(k, s.vals[i], p)
	}
	s.open++
	return it
}

type kvIter struct {
	kv         *kvStore
	keys, vals [][]byte
	pos        int
	closed     bool
	fault      bool // the iteration ended early
}

func (it *kvIter) insert(k, v []byte, p int) {
	i := len(it.keys)
	for i > 0 && bytes.Compare(k[p:], it.keys[i-1][p:]) < 0 {
		i--
	}
	keys := append([][]byte{}, it.keys[:i]...)
	vals := append([][]byte{}, it.vals[:i]...)
	keys = append(keys, k)
	vals = append(vals, v)
	it.keys = append(keys, it.keys[i:]...)
	it.vals = append(vals, it.vals[i:]...)
}

func (it *kvIter) Valid() bool { return !it.closed && !it.fault && it.pos < len(it.keys) }

func (it *kvIter) valid() {
	if !it.Valid() {
		panic("iterator is invalid")
	}
}
func (it *kvIter) Next() {
	it.valid()
	it.pos++
	it.fault = it.kv.op()
}
func (it *kvIter) Key() []byte   { it.valid(); return append([]byte{}, it.keys[it.pos]...) }
func (it *kvIter) Value() []byte { it.valid(); return append([]byte{}, it.vals[it.pos]...) }
func (it *kvIter) Error() error {
	if it.fault {
		return errInjected
	}
	return nil
}
func (it *kvIter) Close() error {
	if !it.closed {
		it.closed = true
		it.kv.open--
	}
	return nil
}
