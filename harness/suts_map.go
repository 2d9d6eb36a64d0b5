package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// ---- keys: an order preserving encoding of 1..K ----

type keyEnc struct {
	name string
	to   func(i int) types.Hashable
	from func(k types.Hashable) int
}

// values: plain integers, or values that cannot be compared or are nil
var valKind = map[string]string{"str": "nil", "bytes": "slice", "mix": "nil", "neg": "slice"}

func (e keyEnc) val(v int) interface{} {
	switch valKind[e.name] {
	case "nil":
		if v == 1 {
			return nil
		}
		return fmt.Sprint("v", v)
	case "slice":
		return []int{v}
	}
	return v
}

// unval is the inverse of val; negative for anything else
func (e keyEnc) unval(x interface{}) int {
	switch y := x.(type) {
	case nil:
		if valKind[e.name] == "nil" {
			return 1
		}
	case int:
		return y
	case []int:
		return y[0]
	case string:
		var v int
		if n, _ := fmt.Sscanf(y, "v%d", &v); n == 1 {
			return v
		}
	}
	return -1
}

// hkey is a user defined key with a freely chosen hash, consistent with equality
type hkey struct{ id, h int }

func (k hkey) Equals(o types.Equatable) bool {
	p, ok := o.(hkey)
	return ok && p.id == k.id
}
func (k hkey) Less(o types.Sortable) bool {
	p, ok := o.(hkey)
	return ok && k.id < p.id
}
func (k hkey) Hash() int { return k.h }

func hkeys(name string, h func(i int) int) keyEnc {
	return keyEnc{name, func(i int) types.Hashable { return hkey{i, h(i)} },
		func(k types.Hashable) int { return k.(hkey).id }}
}

var words = []string{"", "a", "aa", "aab", "ab", "b", "ba", "bb", "c", "ca", "d", "\xff", "\xff\xff"}

var keyEncs = map[string]keyEnc{}

func addEnc(e keyEnc) { keyEncs[e.name] = e }

func init() {
	addEnc(keyEnc{"int", func(i int) types.Hashable { return types.Int(i*7 - 25) },
		func(k types.Hashable) int { return (int(k.(types.Int)) + 25) / 7 }})
	addEnc(keyEnc{"nat", func(i int) types.Hashable { return types.Int(i) },
		func(k types.Hashable) int { return int(k.(types.Int)) }})
	addEnc(keyEnc{"str", func(i int) types.Hashable {
		if i <= len(words) {
			return types.String(words[i-1])
		}
		return types.String(fmt.Sprintf("\xff\xff%07d", i))
	}, func(k types.Hashable) int {
		s := string(k.(types.String))
		if len(s) == 9 && strings.HasPrefix(s, "\xff\xff") {
			var i int
			fmt.Sscanf(s[2:], "%d", &i)
			return i
		}
		for i, w := range words {
			if w == s {
				return i + 1
			}
		}
		return -1
	}})
	addEnc(keyEnc{"bytes", func(i int) types.Hashable { return types.ByteSlice([]byte{byte(i >> 8), byte(i)}) },
		func(k types.Hashable) int { b := k.(types.ByteSlice); return int(b[0])<<8 | int(b[1]) }})
	addEnc(keyEnc{"i64", func(i int) types.Hashable { return types.Int64(int64(i-2) << 40) },
		func(k types.Hashable) int { return int(int64(k.(types.Int64))>>40) + 2 }})
	addEnc(hkeys("same", func(i int) int { return 5 }))
	addEnc(hkeys("neg", func(i int) int { return -i }))
	addEnc(hkeys("sign", func(i int) int { return (i + 1) / 2 * (1 - 2*(i%2)) })) // -1,1,-2,2...
	ext := []int{math.MinInt64, math.MinInt64 + 1, math.MaxInt64, -1, 0, 1 << 62, -(1 << 62), math.MaxInt64 - 1}
	addEnc(hkeys("ext", func(i int) int { return ext[i%len(ext)] }))
	addEnc(hkeys("pow", func(i int) int { return i << 5 })) // same first level bucket in a linear hash
	addEnc(hkeys("pow6", func(i int) int { return i << 6 }))
	addEnc(hkeys("hi", func(i int) int { return i << 40 }))
	addEnc(hkeys("rev", func(i int) int { return 1000 - i }))
	addEnc(hkeys("mix", func(i int) int { return int(uint32(i*2654435761)) * (1 - 2*(i&1)) }))
}

// ---- maps ----

type mapSUT struct {
	m       types.MapOperable
	enc     keyEnc
	ordered bool
	fill    int // filler entries that must never be disturbed
	fillKey func(i int) types.Hashable
	root    func() interface{}
}

const iterCap = 1 << 20

func (s *mapSUT) Roots() []interface{} {
	if s.root != nil {
		return []interface{}{s.root()}
	}
	return []interface{}{s.m}
}

func (s *mapSUT) Do(op Op) string {
	switch op.Name {
	case "put":
		return rErrOr(s.m.Put(s.enc.to(op.A[0].I), s.enc.val(op.A[1].I)), rOK)
	case "get":
		v, err := s.m.Get(s.enc.to(op.A[0].I))
		if err != nil {
			return rErr
		}
		return s.rAny(v)
	case "has":
		return rBool(s.m.Has(s.enc.to(op.A[0].I)))
	case "remove":
		v, err := s.m.Remove(s.enc.to(op.A[0].I))
		if err != nil {
			return rErr
		}
		return s.rAny(v)
	case "size":
		return rVal(s.m.Size() - s.fill)
	}
	panic("unknown operation " + op.Raw)
}

func (s *mapSUT) rAny(v interface{}) string {
	if i := s.enc.unval(v); i >= 0 {
		return rVal(i)
	}
	return jList(`"odd"`, jStr(fmt.Sprintf("%T %v", v, v)))
}

type fillerKey struct {
	id, h int
}

func (k fillerKey) Equals(o types.Equatable) bool {
	p, ok := o.(fillerKey)
	return ok && p.id == k.id
}
func (k fillerKey) Less(o types.Sortable) bool {
	p, ok := o.(fillerKey)
	if !ok {
		return false // fillers sort after every key under test
	}
	return k.id < p.id
}
func (k fillerKey) Hash() int { return k.h }

// Obs: [size, entries]; entries must come out in key order from ordered maps
// and in any order from the others. Keys, Values and Items have to agree with
// Iterate entry by entry.
func (s *mapSUT) Obs() string {
	type kv struct {
		k types.Hashable
		v interface{}
	}
	size := s.m.Size()
	it, ok := s.m.(types.MapIterable)
	if !ok {
		return jList(jInt(size - s.fill))
	}
	var es []kv
	for k, v, next := it.Iterate()(); next != nil; k, v, next = next() {
		es = append(es, kv{k, v})
		if len(es) > iterCap {
			return `["iteration does not end"]`
		}
	}
	i := 0
	for k, next := it.Keys()(); next != nil; k, next = next() {
		if i >= len(es) || !k.Equals(es[i].k) {
			return `["Keys disagrees with Iterate"]`
		}
		i++
	}
	if i != len(es) {
		return `["Keys stops early"]`
	}
	i = 0
	for v, next := it.Values()(); next != nil; v, next = next() {
		if i >= len(es) || s.enc.unval(v) != s.enc.unval(es[i].v) {
			return `["Values disagrees with Iterate"]`
		}
		i++
	}
	if i != len(es) {
		return `["Values stops early"]`
	}
	if li, ok := s.m.(types.ListIterable); ok {
		i = 0
		for e, next := li.Items()(); next != nil; e, next = next() {
			me, ok := e.(*types.MapEntry)
			if !ok || i >= len(es) || s.enc.unval(me.Value) != s.enc.unval(es[i].v) || !me.Key.Equals(es[i].k) {
				return `["Items disagrees with Iterate"]`
			}
			i++
		}
		if i != len(es) {
			return `["Items stops early"]`
		}
	}
	fills := 0
	seen := make([]bool, s.fill)
	ps := [][2]int{}
	for _, e := range es {
		if f, ok := e.k.(fillerKey); ok {
			if f.id < 0 || f.id >= s.fill || seen[f.id] || e.v != -f.id {
				return `["filler entry damaged"]`
			}
			seen[f.id] = true
			fills++
			continue
		}
		v := s.enc.unval(e.v)
		if v < 0 {
			return `["odd value"]`
		}
		ps = append(ps, [2]int{s.enc.from(e.k), v})
	}
	if fills != s.fill {
		return `["filler entry lost"]`
	}
	if !s.ordered {
		sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] })
	}
	return jList(jInt(size-s.fill), jPairs(ps))
}

// Shape of a binary tree as nested sequences: [] or [left, key, right].
func (s *mapSUT) Shape() string {
	var root types.TreeNode
	switch t := s.m.(type) {
	case *avl.AvlTree:
		root = t.Root()
	case *avl.ImmutableAvlTree:
		root = t.Root()
	case *avlNodeMap:
		root = t.n
	case *immNodeMap:
		root = t.n
	default:
		return "[]"
	}
	if types.IsNil(root) {
		return "[]"
	}
	return shapeOf(root.(types.BinaryTreeNode), s.enc, 0)
}

func shapeOf(n types.BinaryTreeNode, enc keyEnc, d int) string {
	if n == nil || isNilNode(n) {
		return "[]"
	}
	if d > 200 {
		return `["too deep"]`
	}
	return jList(shapeOf(n.Left(), enc, d+1), jInt(enc.from(n.Key())), shapeOf(n.Right(), enc, d+1))
}

func isNilNode(n types.BinaryTreeNode) bool {
	switch x := n.(type) {
	case *avl.AvlNode:
		return x == nil
	case *avl.ImmutableAvlNode:
		return x == nil
	}
	return false
}

// avlNodeMap drives the node level API of the AVL tree
type avlNodeMap struct{ n *avl.AvlNode }

func (a *avlNodeMap) Size() int                                 { return a.n.Size() }
func (a *avlNodeMap) Has(k types.Hashable) bool                 { return a.n.Has(k) }
func (a *avlNodeMap) Iterate() types.KVIterator                 { return a.n.Iterate() }
func (a *avlNodeMap) Keys() types.KIterator                     { return a.n.Keys() }
func (a *avlNodeMap) Values() types.Iterator                    { return a.n.Values() }
func (a *avlNodeMap) Get(k types.Hashable) (interface{}, error) { return a.n.Get(k) }
func (a *avlNodeMap) Put(k types.Hashable, v interface{}) error {
	had := a.n.Has(k)
	n, updated := a.n.Put(k, v)
	a.n = n
	if updated != had {
		return fmt.Errorf("Put reported updated=%v for a key that was present=%v", updated, had)
	}
	return nil
}
func (a *avlNodeMap) Remove(k types.Hashable) (interface{}, error) {
	n, v, err := a.n.Remove(k)
	a.n = n
	return v, err
}

type immNodeMap struct{ n *avl.ImmutableAvlNode }

func (a *immNodeMap) Size() int                                 { return a.n.Size() }
func (a *immNodeMap) Has(k types.Hashable) bool                 { return a.n.Has(k) }
func (a *immNodeMap) Iterate() types.KVIterator                 { return a.n.Iterate() }
func (a *immNodeMap) Keys() types.KIterator                     { return a.n.Keys() }
func (a *immNodeMap) Values() types.Iterator                    { return a.n.Values() }
func (a *immNodeMap) Get(k types.Hashable) (interface{}, error) { return a.n.Get(k) }
func (a *immNodeMap) Put(k types.Hashable, v interface{}) error {
	had := a.n.Has(k)
	n, updated := a.n.Put(k, v)
	a.n = n
	if updated != had {
		return fmt.Errorf("Put reported updated=%v for a key that was present=%v", updated, had)
	}
	return nil
}
func (a *immNodeMap) Remove(k types.Hashable) (interface{}, error) {
	n, v, err := a.n.Remove(k)
	if err != nil {
		return nil, err // the old node is still the map
	}
	a.n = n
	return v, err
}

func init() {
	for _, en := range []string{"int", "str", "bytes"} {
		enc := keyEncs[en]
		register("map", "avl/"+en, func() SUT { return &mapSUT{m: avl.NewAvlTree(), enc: enc, ordered: true} })
		register("map", "imm/"+en, func() SUT { return &mapSUT{m: avl.NewImmutableAvlTree(), enc: enc, ordered: true} })
		register("map", "avlnode/"+en, func() SUT { return &mapSUT{m: &avlNodeMap{}, enc: enc, ordered: true} })
		register("map", "immnode/"+en, func() SUT { return &mapSUT{m: &immNodeMap{}, enc: enc, ordered: true} })
		for _, ns := range []int{2, 3, 4, 5, 7, 16, 64, 255} {
			ns := ns
			register("map", fmt.Sprintf("bpmap%d/%s", ns, en), func() SUT { return &mapSUT{m: bptree.NewBpMap(ns), enc: enc, ordered: true} })
		}
		register("map", "mapset/"+en, func() SUT {
			return &mapSUT{m: set.NewMapSet(set.NewSortedSet(3)), enc: enc, ordered: true}
		})
		register("map", "mapset0/"+en, func() SUT {
			return &mapSUT{m: set.NewMapSet(set.NewSortedSet(0)), enc: enc, ordered: true}
		})
		register("map", "mapsetmap/"+en, func() SUT {
			return &mapSUT{m: set.NewSetMap(avl.NewAvlTree()), enc: enc, ordered: true}
		})
	}
	for _, en := range []string{"int", "str", "i64", "same", "neg", "sign", "ext", "pow", "mix", "bytes"} {
		enc := keyEncs[en]
		for _, sz := range []int{0, 1, 2, 3, 5, 8} {
			sz := sz
			register("map", fmt.Sprintf("hash%d/%s", sz, en), func() SUT { return &mapSUT{m: hashtable.NewHashTable(sz), enc: enc} })
		}
		register("map", "lin/"+en, func() SUT { return &mapSUT{m: hashtable.NewLinearHash(), enc: enc} })
	}
	// linear hash tables filled to just below a split, so that the keys under
	// test decide when buckets split and where entries move
	for _, en := range []string{"same", "pow", "pow6", "neg", "ext", "hi", "mix"} {
		enc := keyEncs[en]
		for _, fill := range []int{382, 383, 396, 766, 768} {
			fill := fill
			register("map", fmt.Sprintf("linfill%d/%s", fill, en), func() SUT {
				m := hashtable.NewLinearHash()
				for i := 0; i < fill; i++ {
					must(m.Put(fillerKey{i, i * 3}, -i))
				}
				return &mapSUT{m: m, enc: enc, fill: fill}
			})
		}
	}
}
