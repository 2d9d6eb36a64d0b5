package main

import (
	"fmt"
	"math/rand"

	"github.com/timtadh/data-structures/linked"
	"github.com/timtadh/data-structures/list"
	"github.com/timtadh/data-structures/set"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/types"
)

// printSUT builds a collection out of a sequence of items and prints it
type printSUT struct {
	how int // 0: String(), 1: formatted by fmt, 2: after items have come and gone
}

func (s *printSUT) Roots() []interface{} { return nil }
func (s *printSUT) Obs() string          { return `["stateless"]` }

var printWords = []string{"a", "a b", "b, c", "d", "e{", "g", "}f"}

func (s *printSUT) Do(op Op) string {
	kind, t, q := op.A[0].S, op.A[1].S, op.A[2].Ints()
	item := func(i int) types.Hashable {
		if t == "int" {
			return types.Int(7*i - 25)
		}
		return types.String(printWords[i-1])
	}
	var items []types.Hashable
	for _, i := range q {
		items = append(items, item(i))
	}
	extra := item(1)
	var c fmt.Stringer
	switch kind {
	case "list":
		l := list.New(1)
		for _, x := range items {
			must(l.Append(x))
		}
		if s.how == 2 {
			must(l.Insert(0, extra))
			must(l.Remove(0))
		}
		c = l
	case "linked":
		l := linked.New()
		for _, x := range items {
			must(l.EnqueBack(x))
		}
		if s.how == 2 {
			must(l.EnqueFront(extra))
			_, err := l.DequeFront()
			must(err)
		}
		c = l
	case "sorted":
		l := list.NewSorted(1, true)
		for _, x := range items {
			must(l.Add(x))
		}
		c = l
	case "uniq":
		l := list.NewSorted(1, false)
		for _, x := range items {
			must(l.Add(x))
		}
		c = l
	case "set":
		l := set.NewSortedSet(1)
		for _, x := range items {
			must(l.Add(x))
		}
		c = l
	case "setmap":
		l := set.NewSetMap(avl.NewAvlTree())
		for _, x := range items {
			must(l.Add(x))
		}
		c = l
	case "deque":
		l := linked.NewUniqueDeque()
		for _, x := range items {
			must(l.EnqueBack(x))
		}
		c = l
	case "mapset":
		l := set.NewMapSet(set.NewSortedSet(1))
		for i, x := range items {
			must(l.Put(x, i+1))
		}
		c = l
	case "nested":
		l := list.New(1)
		for n := range items {
			must(l.Append(list.FromSlice(items[:n+1])))
		}
		c = l
	default:
		panic("unknown operation " + op.Raw)
	}
	if s.how == 1 {
		return jList(`"ok"`, jStr(fmt.Sprintf("%v", c)))
	}
	return jList(`"ok"`, jStr(c.String()))
}

func init() {
	for i, n := range []string{"string", "fmt", "used"} {
		how := i
		register("print", n, func() SUT { return &printSUT{how: how} })
	}
	workloads["print"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		kinds := []string{"list", "linked", "sorted", "uniq", "set", "setmap", "deque", "mapset", "nested"}
		for len(ops) < n {
			q := make([]int, rng.Intn(k))
			if rng.Intn(15) == 0 {
				q = make([]int, k+rng.Intn(3*k))
			}
			for i := range q {
				q[i] = 1 + rng.Intn(len(printWords))
			}
			ops = append(ops, parseOp(jList(`"print"`, jStr(kinds[rng.Intn(len(kinds))]),
				[]string{`"int"`, `"str"`}[rng.Intn(2)], jInts(q))))
		}
		return ops
	}
}
