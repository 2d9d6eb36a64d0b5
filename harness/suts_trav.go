package main

import (
	"math/rand"
	"reflect"
	"sort"
	"unsafe"

	"github.com/timtadh/data-structures/tree"
	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// ---- node implementations ----

// bnode answers about children through the helpers of package types
type bnode struct {
	k    int
	l, r *bnode
}

func (n *bnode) Key() types.Hashable              { return types.Int(n.k) }
func (n *bnode) Value() interface{}               { return n.k }
func (n *bnode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }
func (n *bnode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n *bnode) ChildCount() int                  { return types.DoChildCount(n) }
func (n *bnode) Left() types.BinaryTreeNode {
	if n.l == nil {
		return nil
	}
	return n.l
}
func (n *bnode) Right() types.BinaryTreeNode {
	if n.r == nil {
		return nil
	}
	return n.r
}

// tnode returns typed nil pointers for missing children
type tnode struct {
	k    int
	l, r *tnode
}

func (n *tnode) Key() types.Hashable              { return types.Int(n.k) }
func (n *tnode) Value() interface{}               { return n.k }
func (n *tnode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }
func (n *tnode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n *tnode) ChildCount() int                  { return types.DoChildCount(n) }
func (n *tnode) Left() types.BinaryTreeNode       { return n.l }
func (n *tnode) Right() types.BinaryTreeNode      { return n.r }

// vnode is not a pointer
type vnode struct {
	k    int
	l, r types.BinaryTreeNode
}

func (n vnode) Key() types.Hashable              { return types.Int(n.k) }
func (n vnode) Value() interface{}               { return n.k }
func (n vnode) Children() types.TreeNodeIterator { return types.MakeChildrenIterator(n) }
func (n vnode) GetChild(i int) types.TreeNode    { return types.DoGetChild(n, i) }
func (n vnode) ChildCount() int                  { return types.DoChildCount(n) }
func (n vnode) Left() types.BinaryTreeNode       { return n.l }
func (n vnode) Right() types.BinaryTreeNode      { return n.r }

// nnode has any number of children; blind ones do not know how many
type nnode struct {
	k     int
	kids  []*nnode
	blind bool
}

func (n *nnode) Key() types.Hashable { return types.Int(n.k) }
func (n *nnode) Value() interface{}  { return n.k }
func (n *nnode) Children() (it types.TreeNodeIterator) {
	i := 0
	it = func() (types.TreeNode, types.TreeNodeIterator) {
		if i >= len(n.kids) {
			return nil, nil
		}
		i++
		return n.kids[i-1], it
	}
	return it
}
func (n *nnode) GetChild(i int) types.TreeNode {
	if n.blind {
		panic("not supported")
	}
	return n.kids[i]
}
func (n *nnode) ChildCount() int {
	if n.blind {
		return -1
	}
	return len(n.kids)
}

func label(n types.TreeNode) int { return int(n.Key().(types.Int)) }

type travSUT struct {
	bin   func(v Val) types.BinaryTreeNode
	nary  func(v Val) types.TreeNode
	blind bool
	real  func(keys []int, rng *rand.Rand) types.BinaryTreeNode
	tst   bool
}

func walkNodes(it types.TreeNodeIterator, f func(types.TreeNode) int) (string, bool) {
	xs := []int{}
	for n, next := it(); next != nil; n, next = next() {
		xs = append(xs, f(n))
		if len(xs) > iterCap {
			return "", false
		}
	}
	return jInts(xs), true
}

// kids lists the children of every node in pre-order, as seen by iteration;
// count and access by index have to agree.
func kids(n types.TreeNode, f func(types.TreeNode) int, blind bool) (rows []string, err string) {
	xs := []int{}
	var sub []string
	i := 0
	for c, next := n.Children()(); next != nil; c, next = next() {
		xs = append(xs, f(c))
		if !blind && f(n.GetChild(i)) != f(c) {
			return nil, `["odd","GetChild and Children disagree"]`
		}
		i++
		if i > iterCap {
			return nil, `["odd","endless"]`
		}
		s, e := kids(c, f, blind)
		if e != "" {
			return nil, e
		}
		sub = append(sub, s...)
	}
	if !blind && n.ChildCount() != i {
		return nil, `["odd","ChildCount and Children disagree"]`
	}
	return append([]string{jInts(xs)}, sub...), ""
}

func (s *travSUT) Do(op Op) string {
	out := func(it types.TreeNodeIterator) string {
		r, ok := walkNodes(it, label)
		if !ok {
			return `["odd","endless"]`
		}
		return jList(`"ok"`, r)
	}
	switch op.Name {
	case "in", "pre", "post", "kids":
		if s.bin == nil {
			return anyResult
		}
		t := s.bin(op.A[0])
		switch op.Name {
		case "in":
			return out(tree.TraverseBinaryTreeInOrder(t))
		case "pre":
			return out(tree.TraverseTreePreOrder(t))
		case "post":
			return out(tree.TraverseTreePostOrder(t))
		}
		if len(op.A[0].L) == 0 {
			if t != nil && !types.IsNil(t) || types.DoChildCount(t) != 0 {
				return `["odd","children of nothing"]`
			}
			return out(types.MakeChildrenIterator(t))
		}
		rows, e := kids(t, label, false)
		if e != "" {
			return e
		}
		return jList(`"ok"`, jList(rows...))
	case "npre", "npost", "nkids":
		if s.nary == nil || s.blind && op.Name == "npost" {
			return anyResult
		}
		t := s.nary(op.A[0])
		switch op.Name {
		case "npre":
			return out(tree.TraverseTreePreOrder(t))
		case "npost":
			return out(tree.TraverseTreePostOrder(t))
		}
		rows, e := kids(t, label, s.blind)
		if e != "" {
			return e
		}
		return jList(`"ok"`, jList(rows...))
	case "chain":
		var its []types.TreeNodeIterator
		k := 0
		for _, c := range op.A[0].Ints() {
			n := &nnode{}
			for i := 0; i < c; i++ {
				k++
				n.kids = append(n.kids, &nnode{k: k})
			}
			its = append(its, n.Children())
		}
		return out(types.ChainTreeNodeIterators(its...))
	case "avl":
		if s.real == nil {
			return anyResult
		}
		ks := op.A[0].Ints()
		rng := rand.New(rand.NewSource(int64(op.A[1].I)))
		t := s.real(ks, rng)
		in, ok1 := walkNodes(tree.TraverseBinaryTreeInOrder(t), label)
		pre, ok2 := walkNodes(tree.TraverseTreePreOrder(t), label)
		post, ok3 := walkNodes(tree.TraverseTreePostOrder(t), label)
		if !ok1 || !ok2 || !ok3 {
			return `["odd","endless"]`
		}
		rows := []string{}
		if len(ks) > 0 {
			var e string
			if rows, e = kids(t, label, false); e != "" {
				return e
			}
		}
		shape := "[]"
		if len(ks) > 0 {
			shape = binShape(t)
		}
		return jList(`"ok"`, shape, in, pre, post, jList(rows...))
	case "tst":
		if !s.tst {
			return anyResult
		}
		return tstTraversal(int64(op.A[0].I))
	}
	panic("unknown operation " + op.Raw)
}

func (s *travSUT) Obs() string          { return rOK }
func (s *travSUT) Roots() []interface{} { return nil }

func binShape(n types.BinaryTreeNode) string {
	if n == nil {
		return "[]"
	}
	if types.IsNil(n) {
		return "[[],-1,[]]" // a nil pointer shown as a node
	}
	return jList(binShape(n.Left()), jInt(label(n)), binShape(n.Right()))
}

// tstTraversal builds a trie node by node and numbers its nodes in the order
// in which they are reached through Children.
func tstTraversal(seed int64) string {
	rng := rand.New(rand.NewSource(seed))
	t := trie.New()
	for i, n := 0, 1+rng.Intn(30); i < n; i++ {
		w := make([]byte, 2+rng.Intn(4))
		for j := range w {
			w[j] = byte('a' + rng.Intn(4))
		}
		w[0] = 'a'
		must(t.Put(w, i))
		if rng.Intn(4) == 0 {
			_, err := t.Remove(w)
			must(err)
		}
	}
	root := trieNode(t)
	if root == nil {
		return anyResult
	}
	ids := map[types.TreeNode]int{}
	var shape func(n types.TreeNode) string
	shape = func(n types.TreeNode) string {
		ids[n] = len(ids) + 1
		me := jInt(ids[n])
		var ks []string
		for c, next := n.Children()(); next != nil; c, next = next() {
			ks = append(ks, shape(c))
		}
		return jList(me, jList(ks...))
	}
	sh := shape(root)
	id := func(n types.TreeNode) int { return ids[n] }
	pre, ok1 := walkNodes(tree.TraverseTreePreOrder(root), id)
	post, ok2 := walkNodes(tree.TraverseTreePostOrder(root), id)
	rows, e := kids(root, id, false)
	if !ok1 || !ok2 {
		return `["odd","endless"]`
	}
	if e != "" {
		return e
	}
	return jList(`"ok"`, sh, pre, post, jList(rows...))
}

// trieNode finds a node in a trie, which does not export any
func trieNode(t *trie.TST) *trie.TSTNode {
	v := reflect.ValueOf(t).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		if n, ok := f.Interface().(*trie.TSTNode); ok && n != nil {
			return n
		}
		if f.Kind() == reflect.Array || f.Kind() == reflect.Slice {
			for j := 0; j < f.Len(); j++ {
				if n, ok := f.Index(j).Interface().(*trie.TSTNode); ok && n != nil {
					return n
				}
			}
		}
	}
	return nil
}

func init() {
	var b func(v Val) *bnode
	b = func(v Val) *bnode {
		if len(v.L) == 0 {
			return nil
		}
		return &bnode{v.L[1].I, b(v.L[0]), b(v.L[2])}
	}
	var t func(v Val) *tnode
	t = func(v Val) *tnode {
		if len(v.L) == 0 {
			return nil
		}
		return &tnode{v.L[1].I, t(v.L[0]), t(v.L[2])}
	}
	var vn func(v Val) types.BinaryTreeNode
	vn = func(v Val) types.BinaryTreeNode {
		if len(v.L) == 0 {
			return nil
		}
		return vnode{v.L[1].I, vn(v.L[0]), vn(v.L[2])}
	}
	var nn func(v Val, blind bool) *nnode
	nn = func(v Val, blind bool) *nnode {
		n := &nnode{k: v.L[0].I, blind: blind}
		for _, c := range v.L[1].L {
			n.kids = append(n.kids, nn(c, blind))
		}
		return n
	}
	register("trav", "pointer", func() SUT {
		return &travSUT{bin: func(v Val) types.BinaryTreeNode {
			if n := b(v); n != nil {
				return n
			}
			return nil
		}}
	})
	register("trav", "typednil", func() SUT { return &travSUT{bin: func(v Val) types.BinaryTreeNode { return t(v) }} })
	register("trav", "value", func() SUT { return &travSUT{bin: vn} })
	register("trav", "nary", func() SUT { return &travSUT{nary: func(v Val) types.TreeNode { return nn(v, false) }} })
	register("trav", "blind", func() SUT {
		return &travSUT{blind: true, nary: func(v Val) types.TreeNode { return nn(v, true) }}
	})
	extra := func(ks []int, rng *rand.Rand, put func(k int), del func(k int)) {
		for _, i := range rng.Perm(len(ks)) {
			put(ks[i])
			if x := 1000 + rng.Intn(50); rng.Intn(2) == 0 {
				put(x)
				put(-x)
				del(x)
				del(-x)
			}
		}
	}
	register("trav", "avl", func() SUT {
		return &travSUT{real: func(ks []int, rng *rand.Rand) types.BinaryTreeNode {
			t := avl.NewAvlTree()
			extra(ks, rng, func(k int) { must(t.Put(types.Int(k), k)) }, func(k int) { _, e := t.Remove(types.Int(k)); must(e) })
			if t.Size() == 0 {
				return (*avl.AvlNode)(nil)
			}
			return t.Root().(types.BinaryTreeNode)
		}}
	})
	register("trav", "imm", func() SUT {
		return &travSUT{real: func(ks []int, rng *rand.Rand) types.BinaryTreeNode {
			t := avl.NewImmutableAvlTree()
			extra(ks, rng, func(k int) { must(t.Put(types.Int(k), k)) }, func(k int) { _, e := t.Remove(types.Int(k)); must(e) })
			if t.Size() == 0 {
				return (*avl.ImmutableAvlNode)(nil)
			}
			return t.Root().(types.BinaryTreeNode)
		}}
	})
	register("trav", "tst", func() SUT { return &travSUT{tst: true} })

	// random shapes: balanced, degenerate and in between
	var randBin func(rng *rand.Rand, lo, hi, bias int) string
	randBin = func(rng *rand.Rand, lo, hi, bias int) string {
		if lo > hi {
			return "[]"
		}
		k := lo + rng.Intn(hi-lo+1)
		switch bias {
		case 1:
			k = lo
		case 2:
			k = hi
		case 3:
			k = (lo + hi) / 2
		case 4:
			if rng.Intn(2) == 0 {
				k = lo
			} else {
				k = hi
			}
		}
		return jList(randBin(rng, lo, k-1, bias), jInt(k), randBin(rng, k+1, hi, bias))
	}
	var randN func(rng *rand.Rand, next *int, left *int, width int) string
	randN = func(rng *rand.Rand, next, left *int, width int) string {
		k := *next
		*next++
		var ks []string
		c := rng.Intn(width + 1)
		if c > *left {
			c = *left
		}
		*left -= c
		for ; c > 0; c-- {
			ks = append(ks, randN(rng, next, left, width))
		}
		return jList(jInt(k), jList(ks...))
	}
	workloads["trav"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		raw := func(name, arg string) { ops = append(ops, parseOp(jList(jStr(name), arg))) }
		for len(ops) < n {
			sz := rng.Intn(k)
			t := randBin(rng, 1, sz, rng.Intn(5))
			for _, o := range []string{"in", "pre", "post", "kids"} {
				raw(o, t)
			}
			next, left := 1, k
			nt := randN(rng, &next, &left, []int{1 + rng.Intn(12), 2 * k}[rng.Intn(6)/5])
			for _, o := range []string{"npre", "npost", "nkids"} {
				raw(o, nt)
			}
			c := make([]int, 1+rng.Intn(8))
			for i := range c {
				c[i] = rng.Intn(6) * rng.Intn(2)
			}
			raw("chain", jInts(c))
			ks := rng.Perm(3 * k)[:rng.Intn(k)]
			sort.Ints(ks)
			ops = append(ops, mkop("avl", ks, rng.Intn(1<<30)), mkop("tst", rng.Intn(1<<30)))
		}
		return ops
	}
}
