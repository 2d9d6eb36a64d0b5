package main

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"sort"

	"github.com/timtadh/data-structures/hashtable"
	"github.com/timtadh/data-structures/heap"
	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/types"
)

// ---- array list (ListSpec) ----

// listSUT has pre filler items in front of the list the spec knows about;
// position i of the spec is position pre+i.
type listSUT struct {
	l   *list.List
	e   itemEnc
	pre int
}

type preItem int

func (p preItem) Equals(o types.Equatable) bool { q, ok := o.(preItem); return ok && p == q }
func (p preItem) Less(o types.Sortable) bool    { q, ok := o.(preItem); return ok && p < q }
func (p preItem) Hash() int                     { return int(p) }

func (s *listSUT) Roots() []interface{} { return []interface{}{s.l} }

func rItem(e itemEnc, x types.Hashable) string {
	if x == nil {
		return rNil
	}
	return rVal(e.code(x))
}

func (s *listSUT) Do(op Op) string {
	pos := func(i int) int {
		if i < 0 {
			return i
		}
		return i + s.pre
	}
	switch op.Name {
	case "append":
		return rErrOr(s.l.Append(s.e.item(op.A[0].I)), rOK)
	case "push":
		return rErrOr(s.l.Push(s.e.item(op.A[0].I)), rOK)
	case "insert":
		return rErrOr(s.l.Insert(pos(op.A[0].I), s.e.item(op.A[1].I)), rOK)
	case "set":
		return rErrOr(s.l.Set(pos(op.A[0].I), s.e.item(op.A[1].I)), rOK)
	case "remove":
		return rErrOr(s.l.Remove(pos(op.A[0].I)), rOK)
	case "pop":
		if s.pre > 0 && s.l.Size() == s.pre {
			return anyResult // would take a filler item
		}
		x, err := s.l.Pop()
		if err != nil {
			return rErr
		}
		return rItem(s.e, x)
	case "clear":
		s.l.Clear()
		if s.pre > 0 && !s.l.Empty() {
			return jList(`"not empty"`)
		}
		for i := 0; i < s.pre; i++ {
			must(s.l.Append(preItem(i)))
		}
		return rOK
	case "extend":
		err := s.l.Extend(iterOf(op.A[0].Ints(), s.e))
		n := jInt(s.l.Size() - s.pre)
		return rErrOr(err, jList(`"ok"`, n), jList(`"err"`, n))
	case "get":
		x, err := s.l.Get(pos(op.A[0].I))
		if err != nil {
			return rErr
		}
		return rItem(s.e, x)
	case "has":
		return rBool(s.l.Has(s.e.item(op.A[0].I)))
	case "less":
		return rBool(list.NewSortable(s.l).Less(pos(op.A[0].I), pos(op.A[1].I)))
	case "swap":
		list.NewSortable(s.l).Swap(pos(op.A[0].I), pos(op.A[1].I))
		return rOK
	case "sort":
		v := behind{list.NewSortable(s.l), s.pre}
		sort.Sort(v)
		return jList(`"ok"`, jInt(v.Len()))
	case "badsize":
		return badSize(s.e, op.A[0].I)
	case "roundtrip", "badwrite", "badread":
		m, u := s.e.codec()
		if s.pre > 0 {
			m, u = preCodec(m, u)
		}
		src := list.NewMList(s.l, m, u)
		return codecOp(op.Name, src, &src.MarshalItem, s.e, func() (unmarshaler, *types.ItemUnmarshal, func() bool) {
			dst := list.NewMList(usedList(op), m, u)
			return dst, &dst.UnmarshalItem, func() bool {
				ok := dst.List.Equals(s.l) && s.l.Equals(&dst.List) && dst.List.Full() == s.l.Full()
				s.l = &dst.List
				return ok
			}
		})
	}
	panic("unknown operation " + op.Raw)
}

// usedList is a list to read into, see ListSpec
func usedList(op Op) *list.List {
	t := 1
	if op.Name == "roundtrip" {
		t = op.A[0].I
	}
	l := list.New(0)
	switch t {
	case 2:
		l = list.New(40)
	case 3:
		return list.Fixed(1)
	case 4:
		l = list.Fixed(40)
	case 5:
		l = list.New(1)
	default:
		return l
	}
	for i := 0; i < 3; i++ {
		must(l.Append(preItem(i)))
	}
	return l
}

// usedSorted is a sorted list to read into
func usedSorted(op Op, dups bool) *list.Sorted {
	t := 1
	if op.Name == "roundtrip" {
		t = op.A[0].I
	}
	l := list.NewSorted(0, dups)
	switch t {
	case 2:
		l = list.NewSorted(40, !dups)
	case 3:
		return list.NewFixedSorted(1, dups)
	case 4:
		l = list.NewFixedSorted(40, dups)
	case 5:
		l = list.NewSorted(1, !dups)
	default:
		return l
	}
	for i := 0; i < 3; i++ {
		must(l.Add(preItem(i)))
	}
	return l
}

// preCodec is a codec for the items of one type and filler items
func preCodec(m types.ItemMarshal, u types.ItemUnmarshal) (types.ItemMarshal, types.ItemUnmarshal) {
	return func(x types.Hashable) ([]byte, error) {
			if p, ok := x.(preItem); ok {
				return []byte{0, byte(p), byte(p >> 8), byte(p >> 16)}, nil
			}
			b, err := m(x)
			return append([]byte{1}, b...), err
		}, func(b []byte) (types.Hashable, error) {
			if len(b) == 0 {
				return nil, errors.New("no bytes")
			}
			if b[0] == 0 && len(b) == 4 {
				return preItem(int(b[1]) | int(b[2])<<8 | int(b[3])<<16), nil
			}
			return u(b[1:])
		}
}

// behind is what a sort.Interface shows from position pre on
type behind struct {
	sort.Interface
	pre int
}

func (b behind) Len() int           { return b.Interface.Len() - b.pre }
func (b behind) Less(i, j int) bool { return b.Interface.Less(i+b.pre, j+b.pre) }
func (b behind) Swap(i, j int)      { b.Interface.Swap(i+b.pre, j+b.pre) }

// badSize reads an item from too few and too many bytes
func badSize(e itemEnc, x int) string {
	m, u := e.codec()
	b, err := m(e.item(x))
	if err != nil {
		return jList(`"marshal error"`)
	}
	switch e.item(x).(type) {
	case types.String, types.ByteSlice:
		return anyResult // any number of bytes is a value
	}
	for _, d := range [][]byte{b[:len(b)-1], append(append([]byte{}, b...), 0), {}, nil, append(append([]byte{}, b...), b...)} {
		if _, err := u(d); err == nil {
			return jList(`"accepted"`, jInt(len(d)))
		}
	}
	return rErr
}

type marshaler interface{ MarshalBinary() ([]byte, error) }
type unmarshaler interface{ UnmarshalBinary([]byte) error }

// codecOp writes a collection and reads it back into a fresh one.
func codecOp(name string, src marshaler, mi *types.ItemMarshal, e itemEnc,
	fresh func() (unmarshaler, *types.ItemUnmarshal, func() bool)) string {
	if name == "badwrite" {
		m := *mi
		*mi = func(x types.Hashable) ([]byte, error) {
			if e.code(x) == 1 {
				return nil, errors.New("codec")
			}
			return m(x)
		}
		_, err := src.MarshalBinary()
		return rErrOr(err, rOK)
	}
	b, err := src.MarshalBinary()
	if err != nil {
		return jList(`"marshal error"`)
	}
	// the reader gets its bytes inside a larger buffer that is used again
	buf := append(append([]byte{}, b...), bytes.Repeat([]byte{0xAA}, 16)...)
	buf = buf[:len(b)]
	dst, ui, done := fresh()
	if name == "badread" {
		u := *ui
		*ui = func(d []byte) (types.Hashable, error) {
			x, err := u(d)
			if err == nil && e.code(x) == 1 {
				return nil, errors.New("codec")
			}
			return x, err
		}
		return rErrOr(dst.UnmarshalBinary(buf), rOK)
	}
	if err := dst.UnmarshalBinary(buf); err != nil {
		return jList(`"unmarshal error"`)
	}
	if !bytes.Equal(buf, b) {
		return jList(`"input bytes changed"`)
	}
	for i := range buf {
		buf[i] ^= 0x5A
	}
	if !done() {
		return jList(`"not equal to the original"`)
	}
	return rOK
}

func (s *listSUT) Obs() string {
	fw, ok := collect(s.l.Items(), s.e)
	if !ok {
		return `["iteration does not end"]`
	}
	bw, ok := collect(s.l.ItemsInReverse(), s.e)
	if !ok {
		return `["iteration does not end"]`
	}
	if len(fw) < s.pre || len(bw) < s.pre {
		return `["filler lost"]`
	}
	if s.pre > 0 {
		for i := 0; i < s.pre; i++ {
			x, err := s.l.Get(i)
			if err != nil || x != preItem(i) || (i < 400 || i%1009 == 0) && !s.l.Has(preItem(i)) {
				return `["filler damaged"]`
			}
		}
		fw, bw = fw[s.pre:], bw[:len(bw)-s.pre]
	}
	empty := s.l.Empty()
	if s.pre > 0 {
		if empty {
			return `["empty"]`
		}
		empty = len(fw) == 0
	}
	return jList(jInt(s.l.Size()-s.pre), jInts(fw), jInts(bw), rBool(empty), rBool(s.l.Full()))
}

// ---- sorted list and sorted set (SortedSpec) ----

type sortedSUT struct {
	l *list.Sorted
	s *set.SortedSet // when the system is a sorted set; l points into it
	e itemEnc
}

func (s *sortedSUT) Roots() []interface{} { return []interface{}{s.l} }

func (s *sortedSUT) Do(op Op) string {
	switch op.Name {
	case "add":
		return rErrOr(s.l.Add(s.e.item(op.A[0].I)), rOK)
	case "delete":
		return rErrOr(s.l.Delete(s.e.item(op.A[0].I)), rOK)
	case "remove":
		return rErrOr(s.l.Remove(op.A[0].I), rOK)
	case "clear":
		s.l.Clear()
		return rOK
	case "extend":
		err := s.l.Extend(iterOf(op.A[0].Ints(), s.e))
		n := jInt(s.l.Size())
		return rErrOr(err, jList(`"ok"`, n), jList(`"err"`, n))
	case "find":
		i, has, err := s.l.Find(s.e.item(op.A[0].I))
		if err != nil {
			return rErr
		}
		if has {
			return jList(`"ok"`, jInt(i), "1")
		}
		return jList(`"ok"`, jInt(i), "0")
	case "has":
		return rBool(s.l.Has(s.e.item(op.A[0].I)))
	case "item":
		x, err := s.l.Item(s.e.item(op.A[0].I))
		if err != nil {
			return rErr
		}
		return rItem(s.e, x)
	case "get":
		x, err := s.l.Get(op.A[0].I)
		if err != nil {
			return rErr
		}
		return rItem(s.e, x)
	case "roundtrip", "badwrite", "badread":
		m, u := s.e.codec()
		if s.s != nil {
			src := set.NewMSortedSet(s.s, m, u)
			return codecOp(op.Name, src, &src.MarshalItem, s.e, func() (unmarshaler, *types.ItemUnmarshal, func() bool) {
				dst := set.NewMSortedSet(&set.SortedSet{Sorted: *usedSorted(op, false)}, m, u)
				return dst, &dst.UnmarshalItem, func() bool {
					d := dst.SortedSet()
					ok := d.Equals(s.s) && s.s.Equals(d) && d.Full() == s.s.Full()
					s.s, s.l = d, &d.Sorted
					return ok
				}
			})
		}
		src := list.NewMSorted(s.l, m, u)
		return codecOp(op.Name, src, &src.MarshalItem, s.e, func() (unmarshaler, *types.ItemUnmarshal, func() bool) {
			dst := list.NewMSorted(usedSorted(op, !src.AllowDups), m, u)
			return dst, &dst.UnmarshalItem, func() bool {
				d := dst.Sorted()
				ok := d.Equals(s.l) && s.l.Equals(d) && d.Full() == s.l.Full()
				s.l = d
				return ok
			}
		})
	}
	panic("unknown operation " + op.Raw)
}

func (s *sortedSUT) Obs() string {
	fw, ok := collect(s.l.Items(), s.e)
	if !ok {
		return `["iteration does not end"]`
	}
	bw, ok := collect(s.l.ItemsInReverse(), s.e)
	if !ok {
		return `["iteration does not end"]`
	}
	return jList(jInt(s.l.Size()), jInts(fw), jInts(bw), rBool(s.l.Empty()), rBool(s.l.Full()))
}

// ---- linked list and unique deque (Deque) ----

type dequeAPI interface {
	types.Linked
	Backwards() types.KIterator
}

type dequeSUT struct {
	d dequeAPI
	e itemEnc
}

func (s *dequeSUT) Roots() []interface{} { return []interface{}{s.d} }

func (s *dequeSUT) Do(op Op) string {
	val := func(x types.Hashable, err error) string {
		if err != nil {
			return rErr
		}
		return rItem(s.e, x)
	}
	switch op.Name {
	case "enqfront":
		return rErrOr(s.d.EnqueFront(s.e.item(op.A[0].I)), rOK)
	case "enqback":
		return rErrOr(s.d.EnqueBack(s.e.item(op.A[0].I)), rOK)
	case "push":
		return rErrOr(s.d.Push(s.e.item(op.A[0].I)), rOK)
	case "deqfront":
		return val(s.d.DequeFront())
	case "deqback":
		return val(s.d.DequeBack())
	case "pop":
		return val(s.d.Pop())
	case "first":
		return rItem(s.e, s.d.First())
	case "last":
		return rItem(s.e, s.d.Last())
	case "has":
		return rBool(s.d.Has(s.e.item(op.A[0].I)))
	}
	panic("unknown operation " + op.Raw)
}

func (s *dequeSUT) Obs() string {
	fw, ok := collect(s.d.Items(), s.e)
	if !ok {
		return `["iteration does not end"]`
	}
	bw, ok := collect(s.d.Backwards(), s.e)
	if !ok {
		return `["iteration does not end"]`
	}
	return jList(jInt(s.d.Size()), jInts(fw), jInts(bw))
}

// ---- heaps (PrioQueue, UniquePQ) ----

type prioEnc struct {
	name string
	p    func(i int) int
}

var extremes = []int{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, math.MaxInt64 - 1, math.MaxInt64}

var prioEncs = []prioEnc{
	{"small", func(i int) int { return i - 2 }},
	{"ext", func(i int) int {
		if i <= 2 {
			return extremes[i-1]
		}
		if i == 3 {
			return extremes[6]
		}
		panic("too many extreme priorities")
	}},
	{"wide", func(i int) int { return (i - 2) * (1 << 40) }},
}

type heapSUT struct {
	h *heap.Heap
	p prioEnc
	x int
}

func (s *heapSUT) Roots() []interface{} { return []interface{}{s.h} }

func rPlain(x interface{}) string {
	if x == nil {
		return rNil
	}
	if i, ok := x.(int); ok {
		return rVal(i)
	}
	return jList(`"odd"`)
}

func (s *heapSUT) Do(op Op) string {
	switch op.Name {
	case "push":
		s.h.Push(s.p.p(op.A[0].I), op.A[1].I)
		return rOK
	case "pop":
		return rPlain(s.h.Pop())
	case "peek":
		return rPlain(s.h.Peek())
	}
	panic("unknown operation " + op.Raw)
}

func (s *heapSUT) Obs() string {
	cnt := make([]int, s.x)
	n := 0
	for x, next := s.h.Items()(); next != nil; x, next = next() {
		i, ok := x.(int)
		if !ok || i < 1 || i > s.x {
			return `["odd item"]`
		}
		cnt[i-1]++
		if n++; n > iterCap {
			return `["iteration does not end"]`
		}
	}
	return jList(jInt(s.h.Size()), jInts(cnt), rErrOr(s.h.Verify(), rOK))
}

type uniqSUT struct {
	u *heap.UniquePQ
	p prioEnc
	e itemEnc
}

func (s *uniqSUT) Roots() []interface{} { return []interface{}{s.u} }

func (s *uniqSUT) Do(op Op) string {
	val := func(x interface{}) string {
		if x == nil {
			return rNil
		}
		h, ok := x.(types.Hashable)
		if !ok {
			return jList(`"odd"`)
		}
		return rItem(s.e, h)
	}
	switch op.Name {
	case "add":
		s.u.Add(s.p.p(op.A[0].I), s.e.item(op.A[1].I))
		return rOK
	case "push":
		s.u.Push(s.p.p(op.A[0].I), s.e.item(op.A[1].I))
		return rOK
	case "pop":
		return val(s.u.Pop())
	case "peek":
		return val(s.u.Peek())
	}
	panic("unknown operation " + op.Raw)
}

func (s *uniqSUT) Obs() string { return jList(jInt(s.u.Size()), `"queued"`) }

// ---- sets (FiniteSet, SetAlgebra) ----

type setSUT struct {
	s       types.Set
	e       itemEnc
	ordered bool
	item    bool // offers Item
}

func (s *setSUT) Roots() []interface{} { return []interface{}{s.s} }

func (s *setSUT) Do(op Op) string {
	switch op.Name {
	case "add":
		return rErrOr(s.s.Add(s.e.item(op.A[0].I)), rOK)
	case "delete":
		return rErrOr(s.s.Delete(s.e.item(op.A[0].I)), rOK)
	case "has":
		return rBool(s.s.Has(s.e.item(op.A[0].I)))
	case "size":
		return rVal(s.s.Size())
	case "extend":
		return rErrOr(s.s.Extend(iterOf(op.A[0].Ints(), s.e)), rOK)
	case "item":
		if !s.item {
			return anyResult
		}
		x, err := s.s.Item(s.e.item(op.A[0].I))
		if err != nil {
			return rErr
		}
		return rItem(s.e, x)
	case "random":
		r, ok := s.s.(*set.SortedSet)
		if !ok {
			return anyResult
		}
		x, err := r.Random()
		if err != nil {
			return rErr
		}
		return rItem(s.e, x)
	}
	panic("unknown operation " + op.Raw)
}

func obsSet(s types.Set, e itemEnc, ordered bool) string {
	xs, ok := collect(s.Items(), e)
	if !ok {
		return `["iteration does not end"]`
	}
	if !ordered {
		sort.Ints(xs)
	}
	return jList(jInt(s.Size()), jInts(xs))
}

func (s *setSUT) Obs() string { return obsSet(s.s, s.e, s.ordered) }

// mapSetSUT drives a map set both as a map and as a set of entries
type mapSetSUT struct {
	mapSUT
	ms *set.MapSet
}

func (s *mapSetSUT) Do(op Op) string {
	key := func(i int) types.Hashable { return s.enc.to(i) }
	entry := func(k, v int) *types.MapEntry { return &types.MapEntry{key(k), s.enc.val(v)} }
	item := func(x types.Hashable, err error) string {
		if err != nil {
			return rErr
		}
		e, ok := x.(*types.MapEntry)
		if !ok {
			return jList(`"odd"`)
		}
		return jList(`"ok"`, jInt(s.enc.from(e.Key)), jInt(s.enc.unval(e.Value)))
	}
	switch op.Name {
	case "add":
		return rErrOr(s.ms.Add(entry(op.A[0].I, op.A[1].I)), rOK)
	case "addbare":
		return rErrOr(s.ms.Add(key(op.A[0].I)), rOK)
	case "item":
		return item(s.ms.Item(key(op.A[0].I)))
	case "iteme":
		return item(s.ms.Item(entry(op.A[0].I, 77)))
	case "delete":
		return rErrOr(s.ms.Delete(key(op.A[0].I)), rOK)
	case "deletee":
		return rErrOr(s.ms.Delete(entry(op.A[0].I, 77)), rOK)
	case "hase":
		return rBool(s.ms.Has(entry(op.A[0].I, 77)))
	case "extend":
		i := 0
		var it types.KIterator
		it = func() (types.Hashable, types.KIterator) {
			if i >= len(op.A[0].L) {
				return nil, nil
			}
			p := op.A[0].L[i]
			i++
			return entry(p.L[0].I, p.L[1].I), it
		}
		return rErrOr(s.ms.Extend(it), rOK)
	}
	return s.mapSUT.Do(op)
}

// algSUT holds two operands and the result of the last operation
type algSUT struct {
	h   [3]types.Set
	ord [3]bool
	e   itemEnc
}

func (s *algSUT) Roots() []interface{} { return []interface{}{s.h[0], s.h[1], s.h[2]} }

func (s *algSUT) Do(op Op) string {
	a := s.h[op.A[0].I-1]
	two := func(meth, fn func() (types.Set, error)) string {
		r, err := meth()
		if err != nil {
			return rErr
		}
		r2, err := fn()
		if err != nil {
			return rErr
		}
		ord := isOrdered(r)
		if obsSet(r, s.e, ord) != obsSet(r2, s.e, isOrdered(r2)) && ord && isOrdered(r2) {
			return jList(`"method and function differ"`)
		}
		s.h[2], s.ord[2] = r, ord
		return rOK
	}
	both := func(x, y bool) string {
		if x != y {
			return jList(`"method and function differ"`)
		}
		return rBool(x)
	}
	switch op.Name {
	case "add":
		return rErrOr(a.Add(s.e.item(op.A[1].I)), rOK)
	case "delete":
		return rErrOr(a.Delete(s.e.item(op.A[1].I)), rOK)
	case "has":
		return rBool(a.Has(s.e.item(op.A[1].I)))
	}
	b := s.h[op.A[1].I-1]
	switch op.Name {
	case "unionq", "intersectq", "subtractq":
		r, err := map[string]func(types.Set) (types.Set, error){"unionq": a.Union, "intersectq": a.Intersect, "subtractq": a.Subtract}[op.Name](b)
		if err != nil {
			return rErr
		}
		return jList(`"ok"`, obsSet(r, s.e, isOrdered(r)))
	case "union":
		return two(func() (types.Set, error) { return a.Union(b) }, func() (types.Set, error) { return set.Union(a, b) })
	case "intersect":
		return two(func() (types.Set, error) { return a.Intersect(b) }, func() (types.Set, error) { return set.Intersect(a, b) })
	case "subtract":
		return two(func() (types.Set, error) { return a.Subtract(b) }, func() (types.Set, error) { return set.Subtract(a, b) })
	case "subset":
		return both(a.Subset(b), set.Subset(a, b))
	case "superset":
		return both(a.Superset(b), set.Superset(a, b))
	case "psubset":
		return both(a.ProperSubset(b), set.ProperSubset(a, b))
	case "psuperset":
		return both(a.ProperSuperset(b), set.ProperSuperset(a, b))
	case "overlap":
		x, ok1 := a.(*set.SortedSet)
		y, ok2 := b.(*set.SortedSet)
		if !ok1 || !ok2 {
			return anyResult
		}
		return rBool(x.Overlap(y))
	}
	panic("unknown operation " + op.Raw)
}

func isOrdered(s types.Set) bool {
	switch x := s.(type) {
	case *set.SortedSet, *set.MapSet:
		return true
	case *set.SetMap:
		switch x.Map.(type) {
		case *hashtable.Hash, *hashtable.LinearHash:
			return false
		}
		return true
	}
	return false
}

func (s *algSUT) Obs() string {
	var r []string
	for i := range s.h {
		r = append(r, obsSet(s.h[i], s.e, isOrdered(s.h[i])))
	}
	return jList(r...)
}

// ---- map sets as operands (MapAlgebra) ----

type mapAlgSUT struct {
	h   [3]*set.MapSet
	enc keyEnc
}

func (s *mapAlgSUT) Roots() []interface{} { return []interface{}{s.h[0], s.h[1], s.h[2]} }

func (s *mapAlgSUT) Do(op Op) string {
	a := s.h[op.A[0].I-1]
	val := func(v interface{}, err error) string {
		if err != nil {
			return rErr
		}
		return jList(`"ok"`, jInt(s.enc.unval(v)))
	}
	switch op.Name {
	case "put":
		return rErrOr(a.Put(s.enc.to(op.A[1].I), s.enc.val(op.A[2].I)), rOK)
	case "remove":
		return val(a.Remove(s.enc.to(op.A[1].I)))
	case "get":
		return val(a.Get(s.enc.to(op.A[1].I)))
	case "from":
		s.h[2] = set.NewMapSet(set.SortedFromSet(a))
		return rOK
	}
	b := s.h[op.A[1].I-1]
	keep := func(r types.Set, err error) string {
		if err != nil {
			return rErr
		}
		m, ok := r.(*set.MapSet)
		if !ok {
			return jList(`"not a map set"`)
		}
		s.h[2] = m
		return rOK
	}
	switch op.Name {
	case "union":
		return keep(a.Union(b))
	case "intersect":
		return keep(a.Intersect(b))
	case "subtract":
		return keep(a.Subtract(b))
	case "subset":
		return rBool(a.Subset(b))
	case "superset":
		return rBool(a.Superset(b))
	case "psubset":
		return rBool(a.ProperSubset(b))
	case "psuperset":
		return rBool(a.ProperSuperset(b))
	}
	panic("unknown operation " + op.Raw)
}

func (s *mapAlgSUT) Obs() string {
	var r []string
	for _, m := range s.h {
		var es []string
		for k, v, next := m.Iterate()(); next != nil; k, v, next = next() {
			es = append(es, jList(jInt(s.enc.from(k)), jInt(s.enc.unval(v))))
			if len(es) > 1<<20 {
				break
			}
		}
		r = append(r, jList(jInt(m.Size()), jList(es...)))
	}
	return jList(r...)
}

// ---- copies (CopySpec) ----

type copySUT struct {
	side [2]interface{} // *list.List, *list.Sorted, *set.SortedSet or *[]types.Hashable
	e    itemEnc
	mk   func(src interface{}) interface{}
}

func (s *copySUT) Roots() []interface{} { return []interface{}{s.side[0], s.side[1]} }

func (s *copySUT) Do(op Op) string {
	if op.Name == "copy" {
		s.side[1] = s.mk(s.side[0])
		return rOK
	}
	x := s.side[op.A[0].I-1]
	it := func(i int) types.Hashable { return s.e.item(op.A[i].I) }
	if q, ok := x.(*[]types.Hashable); ok {
		switch op.Name {
		case "sset":
			(*q)[op.A[1].I] = it(2)
		case "sappend":
			*q = append(*q, it(1))
		case "scut":
			*q = (*q)[:len(*q)-1]
		default:
			panic("unknown operation " + op.Raw)
		}
		return rOK
	}
	if l, ok := x.(*list.List); ok {
		switch op.Name {
		case "append":
			return rErrOr(l.Append(it(1)), rOK)
		case "insert":
			return rErrOr(l.Insert(op.A[1].I, it(2)), rOK)
		case "set":
			return rErrOr(l.Set(op.A[1].I, it(2)), rOK)
		case "remove":
			return rErrOr(l.Remove(op.A[1].I), rOK)
		case "clear":
			l.Clear()
			return rOK
		}
		panic("unknown operation " + op.Raw)
	}
	var l *list.Sorted
	switch y := x.(type) {
	case *list.Sorted:
		l = y
	case *set.SortedSet:
		l = &y.Sorted
	}
	switch op.Name {
	case "add":
		return rErrOr(l.Add(it(1)), rOK)
	case "delete":
		return rErrOr(l.Delete(it(1)), rOK)
	case "remove":
		return rErrOr(l.Remove(op.A[1].I), rOK)
	case "clear":
		l.Clear()
		return rOK
	}
	panic("unknown operation " + op.Raw)
}

func (s *copySUT) Obs() string {
	one := func(x interface{}) (string, string) {
		var it types.KIterator
		full := false
		size := 0
		switch y := x.(type) {
		case nil:
			return "[]", rBool(false)
		case *[]types.Hashable:
			r := []int{}
			for _, z := range *y {
				r = append(r, s.e.code(z))
			}
			return jInts(r), rBool(false)
		case *list.List:
			it, full, size = y.Items(), y.Full(), y.Size()
		case *list.Sorted:
			it, full, size = y.Items(), y.Full(), y.Size()
		case *set.SortedSet:
			it, full, size = y.Items(), y.Full(), y.Size()
		}
		xs, ok := collect(it, s.e)
		if !ok || size != len(xs) {
			return `["size"]`, rBool(full)
		}
		return jInts(xs), rBool(full)
	}
	a, af := one(s.side[0])
	b, bf := one(s.side[1])
	return jList(a, b, af, bf)
}

func mapsFor(name string) types.Map {
	switch name {
	case "avl":
		return avl.NewAvlTree()
	case "imm":
		return avl.NewImmutableAvlTree()
	case "hash":
		return hashtable.NewHashTable(2)
	case "hash0":
		return hashtable.NewHashTable(0)
	case "lin":
		return hashtable.NewLinearHash()
	case "bpmap":
		return bptree.NewBpMap(3)
	}
	panic(name)
}

func init() {
	initItems()
	listEncs := []string{"int", "str", "Int8", "UInt8", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Int", "UInt",
		"String", "ByteSlice", "blob", "long", "bytes", "i64", "nat"}
	for _, en := range listEncs {
		e := itemEncs[en]
		for _, init := range []int{0, 1, 2, 3, 22, 23, 44, 100} {
			init := init
			register("list", fmt.Sprintf("new%d/%s", init, en), func() SUT { return &listSUT{l: list.New(init), e: e} })
		}
		for _, b := range []int{1, 2, 3, 4, 5, 20, 120} {
			b := b
			register("list", fmt.Sprintf("fixed%d/%s", b, en), func() SUT { return &listSUT{l: list.Fixed(b), e: e} })
			for _, dups := range []bool{false, true} {
				dups := dups
				n := "uniq"
				if dups {
					n = "dups"
				}
				register("sorted", fmt.Sprintf("%s-fixed%d/%s", n, b, en), func() SUT { return &sortedSUT{l: list.NewFixedSorted(b, dups), e: e} })
			}
		}
		for _, pre := range []int{9, 19, 20, 39, 79, 98, 99, 199} {
			pre := pre
			register("list", fmt.Sprintf("pre%d/%s", pre, en), func() SUT {
				l := list.New(10)
				for i := 0; i < pre; i++ {
					must(l.Append(preItem(i)))
				}
				return &listSUT{l: l, e: e, pre: pre}
			})
		}
		if en == "int" || en == "str" {
			for _, pre := range []int{300, 65600} {
				pre := pre
				fill := func(l *list.List) SUT {
					for i := 0; i < pre; i++ {
						must(l.Append(preItem(i)))
					}
					return &listSUT{l: l, e: e, pre: pre}
				}
				register("list", fmt.Sprintf("big%d/%s", pre, en), func() SUT { return fill(list.New(10)) })
				register("list", fmt.Sprintf("bigfixed%d/%s", pre, en), func() SUT { return fill(list.Fixed(pre + 2)) })
			}
		}
		for _, init := range []int{0, 1, 2, 10, 50} {
			init := init
			register("sorted", fmt.Sprintf("uniq-new%d/%s", init, en), func() SUT { return &sortedSUT{l: list.NewSorted(init, false), e: e} })
			register("sorted", fmt.Sprintf("dups-new%d/%s", init, en), func() SUT { return &sortedSUT{l: list.NewSorted(init, true), e: e} })
			register("sorted", fmt.Sprintf("set%d/%s", init, en), func() SUT {
				s := set.NewSortedSet(init)
				return &sortedSUT{l: &s.Sorted, s: s, e: e}
			})
		}
	}
	for _, en := range []string{"int", "str", "bytes", "same", "neg", "ext", "mix"} {
		e := itemEncs[en]
		register("deque", "linked/"+en, func() SUT { return &dequeSUT{d: linked.New(), e: e} })
		register("deque", "unique/"+en, func() SUT { return &dequeSUT{d: linked.NewUniqueDeque(), e: e} })
	}
	for _, p := range prioEncs {
		p := p
		for _, sz := range []int{0, 1, 4, 64} {
			sz := sz
			for _, x := range []int{2, 3, 40} {
				x := x
				nm := fmt.Sprintf("%d/%s/x%d", sz, p.name, x)
				register("heap", "min"+nm, func() SUT { return &heapSUT{h: heap.NewMinHeap(sz), p: p, x: x} })
				register("heap", "max"+nm, func() SUT { return &heapSUT{h: heap.NewMaxHeap(sz), p: p, x: x} })
				register("heap", "gmin"+nm, func() SUT { return &heapSUT{h: heap.NewHeap(sz, true), p: p, x: x} })
				register("heap", "gmax"+nm, func() SUT { return &heapSUT{h: heap.NewHeap(sz, false), p: p, x: x} })
			}
		}
		for _, en := range []string{"int", "str", "same", "ext"} {
			e := itemEncs[en]
			register("upq", "min/"+p.name+"/"+en, func() SUT { return &uniqSUT{u: heap.NewUnique(heap.NewMinHeap(3)), p: p, e: e} })
			register("upq", "max/"+p.name+"/"+en, func() SUT { return &uniqSUT{u: heap.NewUnique(heap.NewMaxHeap(0)), p: p, e: e} })
		}
	}
	mks := map[string]func() types.Set{}
	for _, b := range []string{"avl", "imm", "hash", "hash0", "lin", "bpmap"} {
		b := b
		mks["map-"+b] = func() types.Set { return set.NewSetMap(mapsFor(b)) }
	}
	mks["sorted0"] = func() types.Set { return set.NewSortedSet(0) }
	mks["sorted4"] = func() types.Set { return set.NewSortedSet(4) }
	mks["mapset"] = func() types.Set { return set.NewMapSet(set.NewSortedSet(2)) }
	for n, mk := range mks {
		mk := mk
		encs := []string{"int", "str", "bytes", "same", "neg", "ext", "mix"}
		for _, en := range encs {
			e := itemEncs[en]
			if n == "mapset" {
				continue
			}
			register("set", n+"/"+en, func() SUT {
				s := mk()
				_, isSorted := s.(*set.SortedSet)
				return &setSUT{s: s, e: e, ordered: isOrdered(s), item: isSorted}
			})
		}
		for _, en := range []string{"int", "str"} {
			e := entryEnc(en)
			register("set", n+"/entry-"+en, func() SUT {
				s := mk()
				_, isMap := s.(*set.SetMap)
				return &setSUT{s: s, e: e, ordered: isOrdered(s), item: !isMap}
			})
		}
		for n2, mk2 := range mks {
			mk2 := mk2
			for _, en := range []string{"int", "str", "ext"} {
				e := itemEncs[en]
				if n == "mapset" || n2 == "mapset" {
					e = entryEnc(en)
				}
				register("algebra", n+"+"+n2+"/"+en, func() SUT {
					return &algSUT{h: [3]types.Set{mk(), mk2(), set.NewSortedSet(0)}, e: e}
				})
			}
			register("algebra", n+"+"+n2+"/entry", func() SUT {
				return &algSUT{h: [3]types.Set{mk(), mk2(), set.NewSortedSet(0)}, e: entryEnc("int")}
			})
		}
	}
	for _, en := range []string{"int", "str", "bytes"} {
		enc := keyEncs[en]
		for _, sz := range []int{0, 3} {
			sz := sz
			register("mapset", fmt.Sprintf("sorted%d/%s", sz, en), func() SUT {
				m := set.NewMapSet(set.NewSortedSet(sz))
				return &mapSetSUT{mapSUT{m: m, enc: enc, ordered: true}, m}
			})
			register("mapalg", fmt.Sprintf("sorted%d/%s", sz, en), func() SUT {
				mk := func() *set.MapSet { return set.NewMapSet(set.NewSortedSet(sz)) }
				return &mapAlgSUT{[3]*set.MapSet{mk(), mk(), mk()}, enc}
			})
		}
	}
	e := itemEncs["int"]
	slice := func() interface{} { q := make([]types.Hashable, 0, 2); return &q }
	cp := func(name string, src func() interface{}, mk func(x interface{}) interface{}) {
		register("copy", name, func() SUT { return &copySUT{side: [2]interface{}{src(), nil}, e: e, mk: mk} })
	}
	lcopy := func(x interface{}) interface{} { return x.(*list.List).Copy() }
	scopy := func(x interface{}) interface{} { return x.(*list.Sorted).Copy() }
	tcopy := func(x interface{}) interface{} { return x.(*set.SortedSet).Copy() }
	for _, n := range []int{0, 1, 2, 4, 16} {
		n := n
		cp(fmt.Sprintf("list%d", n), func() interface{} { return list.New(n) }, lcopy)
		cp(fmt.Sprintf("sorted%d", n), func() interface{} { return list.NewSorted(n, true) }, scopy)
		cp(fmt.Sprintf("uniq%d", n), func() interface{} { return list.NewSorted(n, false) }, scopy)
		cp(fmt.Sprintf("set%d", n), func() interface{} { return set.NewSortedSet(n) }, tcopy)
	}
	for _, n := range []int{1, 2, 3, 20} {
		n := n
		cp(fmt.Sprintf("fixed%d", n), func() interface{} { return list.Fixed(n) }, lcopy)
		cp(fmt.Sprintf("fixedsorted%d", n), func() interface{} { return list.NewFixedSorted(n, true) }, scopy)
		cp(fmt.Sprintf("fixeduniq%d", n), func() interface{} { return list.NewFixedSorted(n, false) }, scopy)
	}
	cp("slice-list", slice, func(x interface{}) interface{} { return list.FromSlice(*x.(*[]types.Hashable)) })
	cp("slice-sorted", slice, func(x interface{}) interface{} { return list.SortedFromSlice(*x.(*[]types.Hashable), true) })
	cp("slice-uniq", slice, func(x interface{}) interface{} { return list.SortedFromSlice(*x.(*[]types.Hashable), false) })
	cp("slice-set", slice, func(x interface{}) interface{} { return set.FromSlice(*x.(*[]types.Hashable)) })
	cp("set-set", func() interface{} { return set.NewSortedSet(1) }, func(x interface{}) interface{} { return set.SortedFromSet(x.(*set.SortedSet)) })
}
