package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/types"
)

// ---- scalar values in ascending order; make(i) builds value i anew ----

type scalar struct {
	name string
	n    int
	make func(i int) types.Hashable // 0 <= i < n
}

// boundaries: numbers around every power of two
func boundaries(bits uint, signed bool) (us []uint64, is []int64) {
	if signed {
		seen := map[int64]bool{}
		lo, hi := -int64(1)<<(bits-1), int64(1)<<(bits-1)-1
		add := func(x int64) {
			if x >= lo && x <= hi && !seen[x] {
				seen[x] = true
				is = append(is, x)
			}
		}
		add(lo)
		add(hi)
		add(lo + 1)
		add(hi - 1)
		for k := uint(0); k < bits-1; k++ {
			for d := int64(-1); d <= 1; d++ {
				add(int64(1)<<k + d)
				add(-(int64(1) << k) + d)
			}
		}
		sort.Slice(is, func(i, j int) bool { return is[i] < is[j] })
		return
	}
	seen := map[uint64]bool{}
	hi := ^uint64(0) >> (64 - bits)
	add := func(x uint64) {
		if x <= hi && !seen[x] {
			seen[x] = true
			us = append(us, x)
		}
	}
	add(hi)
	add(hi - 1)
	for k := uint(0); k < bits; k++ {
		for d := uint64(0); d <= 2; d++ {
			add(uint64(1)<<k - 1 + d)
		}
	}
	sort.Slice(us, func(i, j int) bool { return us[i] < us[j] })
	return
}

// thin keeps n values spread over all of them, the extremes included
func thin(total, n int) func(i int) int {
	if total <= n {
		return func(i int) int { return i }
	}
	return func(i int) int { return i * (total - 1) / (n - 1) }
}

func texts() []string {
	var ws []string
	add := func(s string) { ws = append(ws, s) }
	bytes := []string{"\x00", "\x01", "a", "b", "\x7f", "\x80", "\xff"}
	add("")
	for _, a := range bytes {
		add(a)
		for _, b := range bytes {
			add(a + b)
			for _, c := range []string{"\x00", "a", "\xff"} {
				add(a + b + c)
			}
		}
	}
	for _, n := range []int{7, 8, 9, 15, 16, 17, 63, 64, 65} {
		for _, e := range []string{"a", "b", "\x00"} {
			s := ""
			for i := 0; i < n; i++ {
				s += "z"
			}
			add(s + e)
		}
	}
	add("é")
	add("日本")
	add("Z")
	sort.Strings(ws)
	out := ws[:1]
	for _, w := range ws[1:] {
		if w != out[len(out)-1] {
			out = append(out, w)
		}
	}
	return out
}

var scalars []scalar

func initScalars() {
	signed := func(name string, bits uint, f func(int64) types.Hashable) {
		_, xs := boundaries(bits, true)
		scalars = append(scalars, scalar{name, len(xs), func(i int) types.Hashable { return f(xs[i]) }})
	}
	unsigned := func(name string, bits uint, f func(uint64) types.Hashable) {
		xs, _ := boundaries(bits, false)
		scalars = append(scalars, scalar{name, len(xs), func(i int) types.Hashable { return f(xs[i]) }})
	}
	signed("Int8", 8, func(x int64) types.Hashable { return types.Int8(x) })
	signed("Int16", 16, func(x int64) types.Hashable { return types.Int16(x) })
	signed("Int32", 32, func(x int64) types.Hashable { return types.Int32(x) })
	signed("Int64", 64, func(x int64) types.Hashable { return types.Int64(x) })
	signed("Int", 64, func(x int64) types.Hashable { return types.Int(x) })
	unsigned("UInt8", 8, func(x uint64) types.Hashable { return types.UInt8(x) })
	unsigned("UInt16", 16, func(x uint64) types.Hashable { return types.UInt16(x) })
	unsigned("UInt32", 32, func(x uint64) types.Hashable { return types.UInt32(x) })
	unsigned("UInt64", 64, func(x uint64) types.Hashable { return types.UInt64(x) })
	unsigned("UInt", 64, func(x uint64) types.Hashable { return types.UInt(x) })
	ws := texts()
	scalars = append(scalars, scalar{"String", len(ws), func(i int) types.Hashable {
		return types.String(append([]byte{}, ws[i]...))
	}})
	scalars = append(scalars, scalar{"ByteSlice", len(ws), func(i int) types.Hashable {
		if ws[i] == "" && i%2 == 0 {
			return types.ByteSlice(nil)
		}
		return types.ByteSlice(append(make([]byte, 0, 1+len(ws[i])*2), ws[i]...))
	}})
}

func scalarOf(name string) scalar {
	for _, s := range scalars {
		if s.name == name {
			return s
		}
	}
	panic(name)
}

// ---- comparisons ----

type orderSUT struct {
	a, b func(r int) types.Hashable // rank -> value, nil when there is none
	sa   func(x []int) types.Hashable
	sb   func(x []int) types.Hashable
}

func bit(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func compare(x, y types.Hashable, same bool) string {
	h := x.Hash() == x.Hash() && y.Hash() == y.Hash()
	if same {
		h = h && x.Hash() == y.Hash()
	}
	// a value equals and is not less than itself
	h = h && x.Equals(x) && y.Equals(y) && !x.Less(x) && !y.Less(y)
	return jList(`"ok"`, bit(x.Equals(y)), bit(y.Equals(x)), bit(x.Less(y)), bit(y.Less(x)), bit(h))
}

func (s *orderSUT) Do(op Op) string {
	switch op.Name {
	case "cmp":
		x, y := s.a(op.A[0].I), s.b(op.A[1].I)
		if x == nil || y == nil {
			return anyResult
		}
		return compare(x, y, op.A[0].I == op.A[1].I)
	case "cross":
		x, y := s.a(op.A[0].I), s.b(op.A[1].I)
		if x == nil || y == nil {
			return anyResult
		}
		return jList(`"ok"`, bit(x.Equals(y)), bit(y.Equals(x)), bit(x.Less(y)), bit(y.Less(x)))
	case "seq":
		x, y := s.sa(op.A[0].Ints()), s.sb(op.A[1].Ints())
		if x == nil || y == nil {
			return anyResult
		}
		return compare(x, y, jInts(op.A[0].Ints()) == jInts(op.A[1].Ints()))
	}
	panic("unknown operation " + op.Raw)
}

func (s *orderSUT) Obs() string          { return rOK }
func (s *orderSUT) Roots() []interface{} { return nil }

// ---- list implementations: nil when the sequence cannot be represented ----

var seqImpls = map[string]func(xs []types.Hashable, ranks []int) types.Hashable{
	"List": func(xs []types.Hashable, _ []int) types.Hashable {
		l := list.New(1)
		for _, x := range xs {
			must(l.Append(x))
		}
		return l
	},
	"Fixed": func(xs []types.Hashable, _ []int) types.Hashable {
		l := list.Fixed(len(xs) + 2)
		for _, x := range xs {
			must(l.Append(x))
		}
		return l
	},
	"FromSlice": func(xs []types.Hashable, _ []int) types.Hashable { return list.FromSlice(xs) },
	"MList": func(xs []types.Hashable, _ []int) types.Hashable {
		return list.NewMList(list.FromSlice(xs), nil, nil)
	},
	"Sorted": func(xs []types.Hashable, r []int) types.Hashable {
		if !sort.IntsAreSorted(r) {
			return nil
		}
		l := list.NewSorted(2, true)
		for i := len(xs) - 1; i >= 0; i-- {
			must(l.Add(xs[i]))
		}
		return l
	},
	"SortedSet": func(xs []types.Hashable, r []int) types.Hashable {
		for i := 1; i < len(r); i++ {
			if r[i] <= r[i-1] {
				return nil
			}
		}
		l := set.NewSortedSet(2)
		for i := len(xs) - 1; i >= 0; i-- {
			must(l.Add(xs[i]))
		}
		return l
	},
	"Linked": func(xs []types.Hashable, _ []int) types.Hashable {
		l := linked.New()
		for i := len(xs) - 1; i >= 0; i-- {
			must(l.EnqueFront(xs[i]))
		}
		return l
	},
	"Unique": func(xs []types.Hashable, r []int) types.Hashable {
		seen := map[int]bool{}
		l := linked.NewUniqueDeque()
		for i, x := range xs {
			if seen[r[i]] {
				return nil
			}
			seen[r[i]] = true
			must(l.EnqueBack(x))
		}
		return l
	},
}

// entryValue is one of many kinds of values a map entry can have
func entryValue(i int) interface{} {
	switch i & 3 {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		return i
	}
	return types.String("x")
}

// items of lists: rank -> item; tag varies what does not count
var seqItems = map[string]func(r, tag int) types.Hashable{
	"Int":    func(r, _ int) types.Hashable { return types.Int(r*3 - 5) },
	"Int64":  func(r, _ int) types.Hashable { return types.Int64(int64(r-2) << 40) },
	"String": func(r, _ int) types.Hashable { return types.String(fmt.Sprintf("s%05d", r)) },
	"ByteSlice": func(r, _ int) types.Hashable {
		return types.ByteSlice([]byte(fmt.Sprintf("s%05d", r)))
	},
	"Entry": func(r, tag int) types.Hashable { return &types.MapEntry{Key: types.Int(r), Value: entryValue(r + tag)} },
	// lists of lists: longer is greater, then by item
	"List": func(r, _ int) types.Hashable {
		l := list.New(2)
		for i := 0; i < r/2; i++ {
			must(l.Append(types.Int(r)))
		}
		return l
	},
	// items with equal hashes
	"same": func(r, _ int) types.Hashable { return hkey{r, 7} },
}

func names(m interface{}) (r []string) {
	switch x := m.(type) {
	case map[string]func(xs []types.Hashable, ranks []int) types.Hashable:
		for n := range x {
			r = append(r, n)
		}
	case map[string]func(r, tag int) types.Hashable:
		for n := range x {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

func init() {
	initScalars()
	for _, s := range scalars {
		s := s
		for _, cap := range []int{60, 400} {
			pick := thin(s.n, cap)
			n := s.n
			if n > cap {
				n = cap
			}
			val := func(wrap func(types.Hashable, int) types.Hashable, tag int) func(r int) types.Hashable {
				return func(r int) types.Hashable {
					if r > n {
						return nil
					}
					return wrap(s.make(pick(r-1)), tag)
				}
			}
			plain := func(x types.Hashable, _ int) types.Hashable { return x }
			entry := func(x types.Hashable, tag int) types.Hashable {
				return &types.MapEntry{Key: x, Value: entryValue(x.Hash()&3 + tag)}
			}
			node := func(x types.Hashable, tag int) types.Hashable {
				n := &linked.Node{Data: x}
				if tag&1 > 0 {
					n.Next = &linked.Node{Data: s.make(0), Prev: n}
				}
				if tag&2 > 0 {
					n.Prev = &linked.Node{Data: s.make(s.n - 1), Next: n}
				}
				return n
			}
			c := strconv.Itoa(cap)
			register("order", "scalar"+c+"/"+s.name, func() SUT { return &orderSUT{a: val(plain, 0), b: val(plain, 0)} })
			register("order", "entry"+c+"/"+s.name, func() SUT { return &orderSUT{a: val(entry, 1), b: val(entry, 2)} })
			register("order", "node"+c+"/"+s.name, func() SUT { return &orderSUT{a: val(node, 0), b: val(node, 0)} })
			register("order", "noden"+c+"/"+s.name, func() SUT { return &orderSUT{a: val(node, 1), b: val(node, 2)} })
			if cap == 60 {
				for _, u := range scalars {
					if u.name == s.name {
						continue
					}
					u := u
					up := thin(u.n, cap)
					register("order", "cross/"+s.name+"/"+u.name, func() SUT {
						return &orderSUT{a: val(plain, 0), b: func(r int) types.Hashable {
							if r > u.n || r > cap {
								return nil
							}
							return u.make(up(r - 1))
						}}
					})
				}
			}
		}
	}
	for _, e := range names(seqItems) {
		item := seqItems[e]
		conv := func(impl string, tag int) func(x []int) types.Hashable {
			return func(x []int) types.Hashable {
				hs := make([]types.Hashable, 0, len(x))
				for _, r := range x {
					hs = append(hs, item(r, tag))
				}
				return seqImpls[impl](hs, x)
			}
		}
		for _, a := range names(seqImpls) {
			for _, b := range names(seqImpls) {
				a, b := a, b
				register("order", "seq/"+e+"/"+a+"/"+b, func() SUT { return &orderSUT{sa: conv(a, 1), sb: conv(b, 2)} })
			}
		}
	}
	// long sequences that differ late, early, in one item or in length
	workloads["order"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		for len(ops) < n {
			x := make([]int, rng.Intn(60))
			if rng.Intn(12) == 0 {
				x = make([]int, 100+rng.Intn(500))
			}
			for i := range x {
				x[i] = 1 + rng.Intn(k)
			}
			if rng.Intn(2) == 0 { // representable by the sorted and unique ones
				x = rng.Perm(k)[:len(x)%k]
				for i := range x {
					x[i]++
				}
				if rng.Intn(2) == 0 {
					sort.Ints(x)
				}
			}
			y := append([]int{}, x...)
			switch rng.Intn(8) {
			case 4: // other items
				for i := range y {
					y[i] = 1 + rng.Intn(k)
				}
			case 5, 6: // the same items, two or more in other places
				for c := 1 + rng.Intn(3); c > 0 && len(y) > 1; c-- {
					i, j := rng.Intn(len(y)), rng.Intn(len(y))
					y[i], y[j] = y[j], y[i]
				}
			case 0:
				y = y[:rng.Intn(len(y)+1)]
			case 1:
				y = append(y, 1+rng.Intn(k))
			case 2, 3:
				if len(y) > 0 {
					y[rng.Intn(len(y))] = 1 + rng.Intn(k)
				}
			}
			ops = append(ops, mkop("seq", x, y))
		}
		return ops
	}
}
