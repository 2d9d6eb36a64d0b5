package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// ckey counts how often the collection looks at it or at another key
type ckey struct {
	id, h int
	n     *int
}

func (k ckey) Equals(o types.Equatable) bool {
	*k.n++
	p, ok := o.(ckey)
	return ok && p.id == k.id
}
func (k ckey) Less(o types.Sortable) bool {
	*k.n++
	p, ok := o.(ckey)
	return ok && k.id < p.id
}
func (k ckey) Hash() int {
	*k.n++
	return k.h
}

// costSUT reports the result of every call together with its cost
type costSUT struct {
	mapSUT
	n *int
}

func (s *costSUT) Do(op Op) string {
	*s.n = 0
	r := s.mapSUT.Do(op)
	return jList(r, jInt(*s.n))
}

// setAsMap is a set seen as a map to the value 1
type setAsMap struct {
	add func(types.Hashable) error
	del func(types.Hashable) error
	has func(types.Hashable) bool
	len func() int
}

func (s setAsMap) Size() int                                       { return s.len() }
func (s setAsMap) Has(k types.Hashable) bool                       { return s.has(k) }
func (s setAsMap) Put(k types.Hashable, v interface{}) (err error) { return s.add(k) }
func (s setAsMap) Get(k types.Hashable) (interface{}, error) {
	if !s.has(k) {
		return nil, fmt.Errorf("absent")
	}
	return 1, nil
}
func (s setAsMap) Remove(k types.Hashable) (interface{}, error) {
	if err := s.del(k); err != nil {
		return nil, err
	}
	return 1, nil
}

// bpMulti is a B+ tree used with one value per key
type bpMulti struct{ *bptree.BpTree }

func (t bpMulti) Put(k types.Hashable, v interface{}) error {
	if t.BpTree.Has(k) {
		return t.BpTree.Replace(k, func(interface{}) bool { return true }, v)
	}
	return t.BpTree.Add(k, v)
}
func (t bpMulti) Get(k types.Hashable) (interface{}, error) {
	_, v, next := t.BpTree.Find(k)()
	if next == nil {
		return nil, fmt.Errorf("absent")
	}
	return v, nil
}
func (t bpMulti) Remove(k types.Hashable) (interface{}, error) {
	v, err := t.Get(k)
	if err != nil {
		return nil, err
	}
	return v, t.BpTree.RemoveWhere(k, func(interface{}) bool { return true })
}

func init() {
	hashes := map[string]func(i int) int{
		"seq":  func(i int) int { return i },
		"neg":  func(i int) int { return -i },
		"fnv":  func(i int) int { h := fnv.New32a(); fmt.Fprint(h, i); return int(h.Sum32()) },
		"odd":  func(i int) int { return i*7 - 25 },
		"wide": func(i int) int { return int(uint64(i) * 0x9e3779b97f4a7c15 >> 1) },
	}
	reg := func(name, hash string, mk func() types.MapOperable) {
		h := hashes[hash]
		register("cost", name+"/"+hash, func() SUT {
			n := new(int)
			enc := keyEnc{"cost", func(i int) types.Hashable { return ckey{i, h(i), n} },
				func(k types.Hashable) int { return k.(ckey).id }}
			return &costSUT{mapSUT{m: mk(), enc: enc, ordered: true}, n}
		})
	}
	for hn := range hashes {
		for _, sz := range []int{0, 1, 16} {
			sz := sz
			reg(fmt.Sprint("hash", sz), hn, func() types.MapOperable { return hashtable.NewHashTable(sz) })
		}
		reg("lin", hn, func() types.MapOperable { return hashtable.NewLinearHash() })
		reg("set-hash", hn, func() types.MapOperable { return set.NewSetMap(hashtable.NewHashTable(0)) })
		reg("set-lin", hn, func() types.MapOperable { return set.NewSetMap(hashtable.NewLinearHash()) })
	}
	reg("avl", "seq", func() types.MapOperable { return avl.NewAvlTree() })
	reg("imm", "seq", func() types.MapOperable { return avl.NewImmutableAvlTree() })
	for _, ns := range []int{4, 16, 255, 1024} {
		ns := ns
		reg(fmt.Sprint("bpmap", ns), "seq", func() types.MapOperable { return bptree.NewBpMap(ns) })
		reg(fmt.Sprint("bptree", ns), "seq", func() types.MapOperable { return bpMulti{bptree.NewBpTree(ns)} })
	}
	reg("mapset", "seq", func() types.MapOperable { return set.NewMapSet(set.NewSortedSet(4)) })
	reg("sortedset", "seq", func() types.MapOperable {
		s := set.NewSortedSet(4)
		return setAsMap{s.Add, s.Delete, s.Has, s.Size}
	})
	for _, dups := range []bool{false, true} {
		dups := dups
		reg(fmt.Sprint("sorted-", dups), "seq", func() types.MapOperable {
			s := list.NewSorted(4, dups)
			add := s.Add
			if dups {
				add = func(k types.Hashable) error {
					if s.Has(k) {
						return nil
					}
					return s.Add(k)
				}
			}
			return setAsMap{add, s.Delete, s.Has, s.Size}
		})
	}

	// fill in some order, look things up, take some away, look things up
	workloads["cost"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		look := func(c int) {
			for i := 0; i < c && len(ops) < n; i++ {
				name := []string{"get", "has"}[rng.Intn(2)]
				switch rng.Intn(4) {
				case 0:
					ops = append(ops, mkop(name, 1+rng.Intn(1+k/50)))
				case 1:
					ops = append(ops, mkop(name, k-rng.Intn(1+k/50)))
				default:
					ops = append(ops, mkop(name, 1+rng.Intn(k)))
				}
			}
		}
		turn := rng.Intn(5)
		order := func() []int {
			xs := rng.Perm(k)
			turn++
			how := turn % 5
			for i := range xs {
				switch how {
				case 0:
					xs[i] = i
				case 1:
					xs[i] = k - 1 - i
				case 2: // from both ends to the middle
					if xs[i] = i / 2; i%2 == 1 {
						xs[i] = k - 1 - i/2
					}
				case 3: // from the middle to both ends
					if xs[i] = (k - 1 - i) / 2; i%2 == 1 {
						xs[i] = k - 1 - (k-1-i)/2
					}
				}
			}
			return xs
		}
		for len(ops) < n {
			for i, x := range order() {
				if len(ops) < n {
					ops = append(ops, mkop("put", 1+x, 1))
				}
				if i%(1+k/5) == k/5 {
					look(20)
				}
			}
			look(60)
			gone := 1 + rng.Intn(k)
			for i, x := range order() {
				if i < gone && len(ops) < n {
					ops = append(ops, mkop("remove", 1+x))
				}
				if i%(1+k/5) == k/5 {
					look(20)
				}
			}
			look(60)
		}
		return ops
	}
}
