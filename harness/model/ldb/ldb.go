// Package ldb models goleveldb: an ordered map per directory.
package ldb

import (
	"bytes"
	"sync"

	"github.com/FAU-CDI/hangover/internal/zverif/model"
	"github.com/FAU-CDI/hangover/internal/zverif/model/osm"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/util"
)

type entry struct{ key, val []byte }

type state struct {
	mu       sync.Mutex
	path     string
	ents     []entry // unordered
	readonly bool
	closed   bool
}

func get(db *leveldb.DB) *state {
	if db == nil {
		var p *int
		*p = 0
	}
	s, _ := model.Attached(db).(*state)
	if s == nil {
		model.Unsupported("a leveldb that was not opened")
	}
	return s
}

func fault(op string) error { return osm.Fault("leveldb." + op) }

//gosym:replace github.com/syndtr/goleveldb/leveldb.OpenFile
func openFile(path string, o *opt.Options) (*leveldb.DB, error) {
	if err := fault("open"); err != nil {
		return nil, err
	}
	old, err := osm.Mkdir(path)
	if err != nil {
		return nil, err
	}
	s := &state{path: path}
	if o, ok := old.(*state); ok {
		o.mu.Lock()
		closed := o.closed
		s.ents = o.ents
		o.mu.Unlock()
		if !closed {
			return nil, osm.ErrLocked
		}
	}
	osm.SetDirData(path, s)
	db := new(leveldb.DB)
	model.Attach(db, s)
	return db, nil
}

// find returns the position of the key. Entries are kept unordered and are
// only ordered when an iterator shows them.
func find(ents []entry, key []byte) int {
	for i := range ents {
		if bytes.Equal(ents[i].key, key) {
			return i
		}
	}
	return -1
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

//gosym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Put
func put(db *leveldb.DB, key, value []byte, wo *opt.WriteOptions) error {
	s := get(db)
	if err := fault("put"); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return leveldb.ErrClosed
	}
	if s.readonly {
		return leveldb.ErrReadOnly
	}
	e := entry{clone(key), clone(value)}
	if i := find(s.ents, key); i >= 0 {
		s.ents[i] = e
	} else {
		s.ents = append(s.ents, e)
	}
	return nil
}

//gosym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Delete
func del(db *leveldb.DB, key []byte, wo *opt.WriteOptions) error {
	s := get(db)
	if err := fault("delete"); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return leveldb.ErrClosed
	}
	if s.readonly {
		return leveldb.ErrReadOnly
	}
	if i := find(s.ents, key); i >= 0 {
		n := append([]entry{}, s.ents[:i]...)
		s.ents = append(n, s.ents[i+1:]...)
	}
	return nil
}

//gosym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Get
func dbGet(db *leveldb.DB, key []byte, ro *opt.ReadOptions) ([]byte, error) {
	s := get(db)
	if err := fault("get"); err != nil {
		return nil, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return nil, leveldb.ErrClosed
	}
	i := find(s.ents, key)
	if i < 0 {
		return nil, leveldb.ErrNotFound
	}
	return clone(s.ents[i].val), nil
}

//gosym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Has
func has(db *leveldb.DB, key []byte, ro *opt.ReadOptions) (bool, error) {
	s := get(db)
	if err := fault("has"); err != nil {
		return false, err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return false, leveldb.ErrClosed
	}
	return find(s.ents, key) >= 0, nil
}

//gosym:replace (*github.com/syndtr/goleveldb/leveldb.DB).CompactRange
func compactRange(db *leveldb.DB, r util.Range) error {
	s := get(db)
	if err := fault("compact"); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return leveldb.ErrClosed
	}
	if s.readonly {
		return leveldb.ErrReadOnly
	}
	return nil
}

//gosym:replace (*github.com/syndtr/goleveldb/leveldb.DB).SetReadOnly
func setReadOnly(db *leveldb.DB) error {
	s := get(db)
	if err := fault("readonly"); err != nil {
		return err
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return leveldb.ErrClosed
	}
	if s.readonly {
		return leveldb.ErrReadOnly
	}
	s.readonly = true
	return nil
}

//gosym:replace (*github.com/syndtr/goleveldb/leveldb.DB).Close
func closeDB(db *leveldb.DB) error {
	s := get(db)
	err := fault("close")
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return leveldb.ErrClosed
	}
	s.closed = true
	return err
}

type iter struct {
	ents     []entry
	i        int
	key, val []byte
	err      error
	released bool
	sorted   bool
}

func (it *iter) sort() {
	if it.sorted {
		return
	}
	it.sorted = true
	for i := 1; i < len(it.ents); i++ {
		for j := i; j > 0 && bytes.Compare(it.ents[j].key, it.ents[j-1].key) < 0; j-- {
			it.ents[j], it.ents[j-1] = it.ents[j-1], it.ents[j]
		}
	}
}

//gosym:replace (*github.com/syndtr/goleveldb/leveldb.DB).NewIterator
func newIterator(db *leveldb.DB, slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	s := get(db)
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.closed {
		return &iter{err: leveldb.ErrClosed, i: -1}
	}
	it := &iter{i: -1}
	for _, e := range s.ents {
		if slice != nil {
			if slice.Start != nil && bytes.Compare(e.key, slice.Start) < 0 {
				continue
			}
			if slice.Limit != nil && bytes.Compare(e.key, slice.Limit) >= 0 {
				continue
			}
		}
		it.ents = append(it.ents, e)
	}
	return it
}

func (it *iter) set() bool {
	it.key, it.val = it.key[:0], it.val[:0]
	if it.err != nil {
		return false
	}
	if it.released {
		it.err = leveldb.ErrIterReleased
		return false
	}
	return it.i >= 0 && it.i < len(it.ents)
}

func (it *iter) First() bool { it.i = 0; return it.set() }
func (it *iter) Last() bool  { it.i = len(it.ents) - 1; return it.set() }
func (it *iter) Next() bool {
	if it.err == nil {
		if err := fault("next"); err != nil {
			it.err = err
			return it.set()
		}
	}
	if it.i < len(it.ents) {
		it.i++
	}
	return it.set()
}
func (it *iter) Prev() bool {
	if it.i >= 0 {
		it.i--
	}
	return it.set()
}
func (it *iter) Seek(key []byte) bool {
	it.sort()
	for it.i = 0; it.i < len(it.ents) && bytes.Compare(it.ents[it.i].key, key) < 0; it.i++ {
	}
	return it.set()
}

// Key and Value copy into buffers that are reused, as goleveldb does.
func (it *iter) Key() []byte {
	if !it.Valid() {
		return nil
	}
	it.sort()
	it.key = append(it.key[:0], it.ents[it.i].key...)
	return it.key
}
func (it *iter) Value() []byte {
	if !it.Valid() {
		return nil
	}
	it.sort()
	it.val = append(it.val[:0], it.ents[it.i].val...)
	return it.val
}
func (it *iter) Valid() bool   { return it.err == nil && !it.released && it.i >= 0 && it.i < len(it.ents) }
func (it *iter) Error() error  { return it.err }
func (it *iter) Release() {
	it.released = true
}
func (it *iter) SetReleaser(util.Releaser) {}
