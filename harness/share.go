package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sync"

	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
)

// Collections that are only queried can be queried by many goroutines, many
// iterations can be under way at once, and different collections have nothing
// to do with one another.

// queries: operations that change nothing
var queries = map[string]map[string]bool{}

func reads(model string, ops ...string) {
	queries[model] = map[string]bool{}
	for _, o := range ops {
		queries[model][o] = true
	}
}

func init() {
	reads("map", "get", "has", "size")
	reads("list", "get", "has", "less")
	reads("sorted", "find", "has", "item", "get")
	reads("set", "has", "size", "item", "random")
	reads("mapset", "get", "has", "size", "item", "iteme", "hase")
	reads("algebra", "has", "subset", "superset", "psubset", "psuperset", "overlap", "unionq", "intersectq", "subtractq")
	reads("mapalg", "get", "subset", "superset", "psubset", "psuperset")
	reads("deque", "first", "last", "has")
	reads("heap", "peek")
	reads("upq", "peek")
	reads("multi", "has", "count", "find", "size", "range")
	reads("trie", "get", "has", "prefix", "badget", "badhas")
	reads("snap", "nget", "nhas", "read")
}

// view is another way to look at the same real objects
func view(s SUT) SUT {
	v := reflect.New(reflect.TypeOf(s).Elem())
	v.Elem().Set(reflect.ValueOf(s).Elem())
	return v.Interface().(SUT)
}

// puller yields the items of an iteration one by one
type puller func() (item string, ok bool)

// Iterated is implemented by systems that can be iterated in one or more ways.
type Iterated interface{ Iters() []func() puller }

func pullK(f func() types.KIterator) func() puller {
	return func() puller {
		it := f()
		return func() (string, bool) {
			x, next := it()
			it = next
			return fmt.Sprint(x), next != nil
		}
	}
}

func pullV(f func() types.Iterator) func() puller {
	return func() puller {
		it := f()
		return func() (string, bool) {
			x, next := it()
			it = next
			return fmt.Sprint(x), next != nil
		}
	}
}

func pullKV(f func() types.KVIterator) func() puller {
	return func() puller {
		it := f()
		return func() (string, bool) {
			k, v, next := it()
			it = next
			return fmt.Sprint(k, v), next != nil
		}
	}
}

func mapIters(m interface{}) (r []func() puller) {
	if it, ok := m.(types.MapIterable); ok {
		r = append(r, pullKV(it.Iterate), pullK(it.Keys), pullV(it.Values))
	}
	if li, ok := m.(types.ListIterable); ok {
		r = append(r, pullK(li.Items))
	}
	return r
}

func (s *mapSUT) Iters() []func() puller { return mapIters(s.m) }
func (s *listSUT) Iters() []func() puller {
	return []func() puller{pullK(s.l.Items), pullK(s.l.ItemsInReverse)}
}
func (s *sortedSUT) Iters() []func() puller {
	return []func() puller{pullK(s.l.Items), pullK(s.l.ItemsInReverse)}
}
func (s *setSUT) Iters() []func() puller { return []func() puller{pullK(s.s.Items)} }
func (s *algSUT) Iters() (r []func() puller) {
	for _, x := range s.h {
		if x != nil {
			r = append(r, pullK(x.Items))
		}
	}
	return r
}
func (s *mapAlgSUT) Iters() (r []func() puller) {
	for _, x := range s.h {
		if x != nil {
			r = append(r, mapIters(x)...)
		}
	}
	return r
}
func (s *dequeSUT) Iters() []func() puller {
	return []func() puller{pullK(s.d.Items), pullK(s.d.Backwards)}
}
func (s *heapSUT) Iters() []func() puller { return []func() puller{pullV(s.h.Items)} }
func (s *multiSUT) Iters() []func() puller {
	return []func() puller{pullKV(s.t.Iterate), pullKV(s.t.Backward), pullK(s.t.Keys), pullV(s.t.Values), pullK(s.t.Items),
		pullKV(func() types.KVIterator { return s.t.Range(s.enc.to(3), s.enc.to(30)) }),
		pullKV(func() types.KVIterator { return s.t.Range(s.enc.to(30), s.enc.to(2)) }),
		pullKV(func() types.KVIterator { return s.t.Find(s.enc.to(2)) })}
}
func (s *trieSUT) Iters() []func() puller {
	p := []byte{}
	if s.a.n > 0 {
		p = append(p, s.a.of(1)...)
	}
	return append(mapIters(s.t), pullKV(func() types.KVIterator { return s.t.PrefixFind(p) }))
}
func (s *snapSUT) Iters() []func() puller { return mapIters(s.t) }

func pullAll(p puller) (r []string) {
	for len(r) < iterCap {
		x, ok := p()
		if !ok {
			break
		}
		r = append(r, x)
	}
	return r
}

// weave runs pairs of iterations with their steps interleaved and queries in
// between; each has to yield what it yields alone. The result is that of Obs
// when they do.
func weave(s SUT, rng *rand.Rand, qs []Op) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = `["panic"]`
		}
	}()
	it, ok := s.(Iterated)
	if !ok {
		return s.Obs()
	}
	ms := it.Iters()
	for c := 0; c < 3 && len(ms) > 0; c++ {
		a, b := ms[rng.Intn(len(ms))], ms[rng.Intn(len(ms))]
		want := [2][]string{pullAll(a()), pullAll(b())}
		p := [2]puller{a(), b()}
		var at [2]int
		var done [2]bool
		for !done[0] || !done[1] {
			j := rng.Intn(2)
			for burst := 1 + rng.Intn(4); burst > 0 && !done[j]; burst-- {
				x, ok := p[j]()
				if !ok {
					done[j] = true
					if at[j] != len(want[j]) {
						return `["an iteration stops early next to another"]`
					}
				} else if at[j] >= len(want[j]) || want[j][at[j]] != x {
					return `["an iteration differs next to another"]`
				}
				at[j]++
			}
			if len(qs) > 0 && rng.Intn(4) == 0 {
				s.Do(qs[rng.Intn(len(qs))])
			}
		}
	}
	return s.Obs()
}

// share has n goroutines query the system at once and writes what they saw
func share(w *bytes.Buffer, s SUT, rng *rand.Rand, qs []Op, n int) {
	logs := make([][]string, n)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		v, r := view(s), rand.New(rand.NewSource(rng.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 6 && len(qs) > 0; i++ {
				op := qs[r.Intn(len(qs))]
				if res := tidy(safeDo(v, op)); res != anyResult {
					logs[g] = append(logs[g], fmt.Sprintf(`{"e":%s,"r":%s}`+"\n", op.Raw, res))
				}
			}
			logs[g] = append(logs[g], fmt.Sprintf(`{"e":["OBS"],"r":%s}`+"\n", tidy(weave(v, r, qs))))
			compareAll(v)
		}(g)
	}
	wg.Wait()
	for _, l := range logs {
		for _, x := range l {
			w.WriteString(x)
		}
	}
}

// compareAll exercises comparison, hashing, copying and printing, which are
// judged elsewhere; here they run next to other queries
func compareAll(s SUT) {
	defer func() { recover() }()
	switch x := s.(type) {
	case *listSUT:
		c := x.l.Copy()
		_, _, _, _ = x.l.Equals(c), x.l.Less(c), x.l.Hash(), x.l.String()
	case *sortedSUT:
		c := x.l.Copy()
		_, _, _, _ = x.l.Equals(c), x.l.Less(c), x.l.Hash(), x.l.String()
	case *setSUT:
		if t, ok := x.s.(*set.SortedSet); ok {
			c := t.Copy()
			_, _, _, _ = t.Equals(c), t.Less(c), t.Hash(), t.String()
		}
	case *dequeSUT:
		if l, ok := x.d.(types.IterableContainer); ok {
			_, _ = list.Equals(l, l), list.Less(l, l)
		}
		if h, ok := x.d.(types.Hashable); ok {
			h.Hash()
		}
	case *heapSUT:
		_ = x.h.Verify()
	}
}
