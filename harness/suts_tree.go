package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"sync"

	"github.com/timtadh/data-structures/tree/avl"
	"github.com/timtadh/data-structures/tree/bptree"
	"github.com/timtadh/data-structures/trie"
	"github.com/timtadh/data-structures/types"
)

// ---- B+ tree (MultiMap) ----

type multiSUT struct {
	t   *bptree.BpTree
	enc keyEnc
	v   int
}

func (s *multiSUT) Roots() []interface{} { return []interface{}{s.t} }

func (s *multiSUT) where(w int) types.WhereFunc {
	return func(x interface{}) bool {
		u := s.enc.unval(x)
		switch {
		case w == s.v+1:
			return true
		case w == s.v+2:
			return u != 1
		}
		return u == w
	}
}

// groups collects entries by runs of one key: [[key, copies of each value]...]
func (s *multiSUT) groups(it types.KVIterator) (string, []types.Hashable, []interface{}, bool) {
	var out []string
	var ks []types.Hashable
	var vs []interface{}
	last := 0
	cnt := make([]int, s.v)
	flush := func() {
		if last != 0 {
			out = append(out, jList(jInt(last), jInts(cnt)))
		}
		cnt = make([]int, s.v)
	}
	for k, v, next := it(); next != nil; k, v, next = next() {
		if len(ks) > iterCap {
			return `["iteration does not end"]`, nil, nil, false
		}
		ks, vs = append(ks, k), append(vs, v)
		i, u := s.enc.from(k), s.enc.unval(v)
		if u < 1 || u > s.v || i < 1 {
			return `["odd entry"]`, nil, nil, false
		}
		if i != last {
			flush()
			last = i
		}
		cnt[u-1]++
	}
	flush()
	return jList(out...), ks, vs, true
}

func (s *multiSUT) Do(op Op) string {
	key := func(i int) types.Hashable { return s.enc.to(op.A[i].I) }
	it := func(it types.KVIterator) string {
		g, _, _, ok := s.groups(it)
		if !ok {
			return g
		}
		return jList(`"ok"`, g)
	}
	switch op.Name {
	case "add":
		return rErrOr(s.t.Add(key(0), s.enc.val(op.A[1].I)), rOK)
	case "replace":
		return rErrOr(s.t.Replace(key(0), s.where(op.A[1].I), s.enc.val(op.A[2].I)), rOK)
	case "removewhere":
		return rErrOr(s.t.RemoveWhere(key(0), s.where(op.A[1].I)), rOK)
	case "has":
		return rBool(s.t.Has(key(0)))
	case "count":
		return rVal(s.t.Count(key(0)))
	case "find":
		return it(s.t.Find(key(0)))
	case "size":
		return rVal(s.t.Size())
	case "range":
		return it(s.t.Range(key(0), key(1)))
	}
	panic("unknown operation " + op.Raw)
}

func (s *multiSUT) Obs() string {
	fw, ks, vs, ok := s.groups(s.t.Iterate())
	if !ok {
		return fw
	}
	bw, _, _, ok := s.groups(s.t.Backward())
	if !ok {
		return bw
	}
	i := 0
	for v, next := s.t.Values()(); next != nil; v, next = next() {
		if i >= len(vs) || s.enc.unval(v) != s.enc.unval(vs[i]) {
			return `["Values disagrees with Iterate"]`
		}
		i++
	}
	if i != len(vs) {
		return `["Values stops early"]`
	}
	i = 0
	for e, next := s.t.Items()(); next != nil; e, next = next() {
		me, ok := e.(*types.MapEntry)
		if !ok || i >= len(vs) || s.enc.unval(me.Value) != s.enc.unval(vs[i]) || s.enc.from(me.Key) != s.enc.from(ks[i]) {
			return `["Items disagrees with Iterate"]`
		}
		i++
	}
	if i != len(vs) {
		return `["Items stops early"]`
	}
	keys := []int{}
	for k, next := s.t.Keys()(); next != nil; k, next = next() {
		if keys = append(keys, s.enc.from(k)); len(keys) > iterCap {
			return `["iteration does not end"]`
		}
	}
	return jList(jInt(s.t.Size()), fw, bw, jInts(keys))
}

// ---- trie (TrieSpec) ----

// alphabet maps letters to bytes; letter 0 is the null byte
type alphabet struct {
	name string
	of   func(l int) []byte
	n    int // bytes per letter
}

func table(name string, bs ...byte) alphabet {
	return alphabet{name, func(l int) []byte { return bs[l : l+1] }, 1}
}

var alphabets = []alphabet{
	table("abc", 0, 'a', 'b', 'c', 'd', 'e'),
	table("edge", 0, 1, 0x7f, 0x80, 0xfe, 0xff),
	table("high", 0, 0xfb, 0xfc, 0xfd, 0xfe, 0xff),
	{"wide", func(l int) []byte {
		if l == 0 {
			return []byte{'x', 0, 'x'}
		}
		return []byte{0xff, byte(l * 50), 1}
	}, 3},
	{"long", func(l int) []byte {
		b := bytes.Repeat([]byte{'m'}, 70)
		b[69] = byte(l)
		if l > 0 {
			b[69] = byte('a' + l)
		}
		return b
	}, 70},
}

type trieSUT struct {
	t     *trie.TST
	a     alphabet
	nils  bool // value 1 is nil
	empty int  // empty keys seen; they are nil and non-nil by turns
}

func (s *trieSUT) Roots() []interface{} { return []interface{}{s.t} }

// with calls f with a key in a buffer that has room behind it, and afterwards
// overwrites the buffer
func (s *trieSUT) with(w []int, f func(key []byte) string) string {
	buf := make([]byte, 0, len(w)*s.a.n+8)
	for _, l := range w {
		buf = append(buf, s.a.of(l)...)
	}
	n := len(buf)
	full := buf[:cap(buf)]
	for i := n; i < len(full); i++ {
		full[i] = 0x55
	}
	was := append([]byte{}, full...)
	r := f(buf)
	if !bytes.Equal(was, full) {
		return jList(`"key buffer written"`)
	}
	for i := range full {
		full[i] = 0xEE
	}
	return r
}

func (s *trieSUT) val(v int) interface{} {
	if s.nils {
		if v == 1 {
			return nil
		}
		return []int{v}
	}
	return v
}

func (s *trieSUT) unval(x interface{}) int {
	switch y := x.(type) {
	case nil:
		if s.nils {
			return 1
		}
	case []int:
		return y[0]
	case int:
		return y
	}
	return -1
}

func (s *trieSUT) word(k types.Hashable) []int {
	b, ok := k.(types.ByteSlice)
	if !ok || len(b)%s.a.n != 0 {
		return []int{-1}
	}
	w := []int{}
	for i := 0; i < len(b); i += s.a.n {
		c := -2
		for l := 0; l <= 5; l++ {
			if bytes.Equal(s.a.of(l), b[i:i+s.a.n]) {
				c = l
				break
			}
		}
		w = append(w, c)
	}
	return w
}

func (s *trieSUT) list(it types.KVIterator) (string, int) {
	var out []string
	for k, v, next := it(); next != nil; k, v, next = next() {
		out = append(out, jList(jInts(s.word(k)), jInt(s.unval(v))))
		if len(out) > iterCap {
			return `["iteration does not end"]`, -1
		}
	}
	return jList(out...), len(out)
}

func (s *trieSUT) Do(op Op) string {
	val := func(v interface{}, err error) string {
		if err != nil {
			return rErr
		}
		return rVal(s.unval(v))
	}
	w := op.A[len(op.A)-1].Ints()
	return s.with(w, func(key []byte) string {
		if len(w) == 0 {
			if s.empty++; s.empty%2 == 1 {
				key = nil
			}
		}
		switch op.Name {
		case "put":
			return rErrOr(s.t.Put(key, s.val(op.A[1].I)), rOK)
		case "badput":
			return rErrOr(s.t.Put(key, 1), rOK)
		case "get", "badget":
			return val(s.t.Get(key))
		case "has", "badhas":
			return rBool(s.t.Has(key))
		case "remove", "badremove":
			return val(s.t.Remove(key))
		case "prefix":
			l, n := s.list(s.t.PrefixFind(key))
			if n < 0 {
				return l
			}
			return jList(`"ok"`, l)
		}
		panic("unknown operation " + op.Raw)
	})
}

// Shape is the drawing of the trie, read back
func (s *trieSUT) Shape() string {
	type node struct {
		key    bool
		label  string
		kids   map[string]string
		parent string
	}
	nodes := map[string]*node{}
	bad := func(why string) string { return jList(jList(jInt(-1), jList(jStr(why)))) }
	letter := func(l string) string {
		for i := 1; i <= 5; i++ {
			if string(s.a.of(i)) == l {
				return jInt(i)
			}
		}
		return jInt(0)
	}
	var heads []string
	for _, line := range strings.Split(s.t.Dotty(), "\n") {
		if !strings.HasPrefix(line, "n") {
			continue
		}
		i := strings.Index(line, `[label="`)
		j := strings.Index(line[i+8:], `"`)
		if i < 0 || j < 0 {
			return bad("line " + line)
		}
		label := line[i+8 : i+8+j]
		if k := strings.Index(line[:i], " -> "); k >= 0 {
			from, to := line[:k], strings.TrimSpace(line[k+4:i])
			f, t := nodes[from], nodes[to]
			if f == nil || t == nil || t.parent != "" || f.kids[label] != "" {
				return bad("edge " + line)
			}
			t.parent = from
			f.kids[label] = to
			if f.label == "heads" {
				heads = append(heads, label)
			}
			continue
		}
		if nodes[line[:i]] != nil {
			return bad("node " + line)
		}
		nodes[line[:i]] = &node{key: strings.Contains(line, "#aaffaa"), label: label, kids: map[string]string{}}
	}
	seen := 1
	var draw func(name string) string
	draw = func(name string) string {
		n := nodes[name]
		if n == nil {
			return "[]"
		}
		seen++
		if n.key && len(n.kids) == 0 {
			return jList(jStr("key"), jInts(s.word(types.ByteSlice(n.label))))
		}
		if n.key {
			return bad("key inside")
		}
		return jList(jStr("byte"), letter(n.label), draw(n.kids["<"]), draw(n.kids["="]), draw(n.kids[">"]))
	}
	var hs []string
	for _, h := range heads {
		hs = append(hs, jList(letter(h), draw(nodes["n0"].kids[h])))
	}
	if seen != len(nodes) {
		return bad("stray nodes")
	}
	return jList(hs...)
}

func (s *trieSUT) Obs() string {
	l, n := s.list(s.t.Iterate())
	if n < 0 {
		return l
	}
	ks, vs := []string{}, []string{}
	for k, next := s.t.Keys()(); next != nil; k, next = next() {
		ks = append(ks, jInts(s.word(k)))
	}
	for v, next := s.t.Values()(); next != nil; v, next = next() {
		vs = append(vs, jInt(s.unval(v)))
	}
	var both, items []string
	if len(ks) != len(vs) {
		return `["Keys and Values differ in length"]`
	}
	for i := range ks {
		both = append(both, jList(ks[i], vs[i]))
	}
	if jList(both...) != l {
		return `["Keys and Values disagree with Iterate"]`
	}
	for e, next := s.t.Items()(); next != nil; e, next = next() {
		me, ok := e.(*types.MapEntry)
		if !ok {
			return `["odd item"]`
		}
		items = append(items, jList(jInts(s.word(me.Key)), jInt(s.unval(me.Value))))
	}
	if jList(items...) != l {
		return `["Items disagrees with Iterate"]`
	}
	return jList(jInt(n), l)
}

// ---- immutable AVL snapshots (Snapshots) ----

type snapSUT struct {
	t   *avl.ImmutableAvlTree
	sn  []*avl.ImmutableAvlNode
	it  types.KVIterator
	enc keyEnc
}

func (s *snapSUT) Roots() []interface{} {
	r := []interface{}{s.t}
	for _, n := range s.sn {
		r = append(r, n)
	}
	return r
}

func (s *snapSUT) Do(op Op) string {
	key := func(i int) types.Hashable { return s.enc.to(op.A[i].I) }
	val := func(v interface{}, err error) string {
		if err != nil {
			return rErr
		}
		return rVal(s.enc.unval(v))
	}
	node := func(i int) *avl.ImmutableAvlNode { return s.sn[op.A[i].I-1] }
	switch op.Name {
	case "put":
		return rErrOr(s.t.Put(key(0), s.enc.val(op.A[1].I)), rOK)
	case "remove":
		return val(s.t.Remove(key(0)))
	case "snap":
		n, _ := s.t.Root().(*avl.ImmutableAvlNode)
		s.sn[op.A[0].I-1] = n
		return rOK
	case "nput":
		n, updated := node(0).Put(key(1), s.enc.val(op.A[2].I))
		s.sn[op.A[3].I-1] = n
		if updated {
			return rVal(1)
		}
		return rVal(0)
	case "nremove":
		n, v, err := node(0).Remove(key(1))
		if err != nil {
			return rErr
		}
		s.sn[op.A[2].I-1] = n
		return rVal(s.enc.unval(v))
	case "nget":
		return val(node(0).Get(key(1)))
	case "nhas":
		return rBool(node(0).Has(key(1)))
	case "iter":
		if op.A[0].I == 0 {
			s.it = s.t.Iterate()
		} else {
			s.it = node(0).Iterate()
		}
		return rOK
	case "read":
		return obsEntries(node(0).Size(), node(0).Iterate(), s.enc)
	case "next":
		if s.it == nil {
			return anyResult
		}
		k, v, next := s.it()
		s.it = next
		if next == nil {
			return jList(`"end"`)
		}
		return jList(`"ok"`, jList(jInt(s.enc.from(k)), jInt(s.enc.unval(v))))
	}
	panic("unknown operation " + op.Raw)
}

func obsEntries(size int, it types.KVIterator, enc keyEnc) string {
	ps := [][2]int{}
	for k, v, next := it(); next != nil; k, v, next = next() {
		if ps = append(ps, [2]int{enc.from(k), enc.unval(v)}); len(ps) > iterCap {
			return `["iteration does not end"]`
		}
	}
	return jList(jInt(size), jPairs(ps))
}

func (s *snapSUT) Obs() string {
	var sn []string
	for _, n := range s.sn {
		sn = append(sn, obsEntries(n.Size(), n.Iterate(), s.enc))
	}
	return jList(obsEntries(s.t.Size(), s.t.Iterate(), s.enc), jList(sn...))
}

// Concurrently runs the operations while readers go through the held nodes;
// it returns what each read saw. The nodes are read only through the library.
func (s *snapSUT) Concurrently(ops func(), readers int) (reads [][2]string) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	for r := 0; r < readers; r++ {
		j := r % len(s.sn)
		n := s.sn[j]
		wg.Add(1)
		go func() {
			defer wg.Done()
			var o string
			func() {
				defer func() {
					if e := recover(); e != nil {
						o = `["panic"]`
					}
				}()
				for i := 0; i < 3; i++ {
					o = obsEntries(n.Size(), n.Iterate(), s.enc)
				}
			}()
			mu.Lock()
			reads = append(reads, [2]string{jList(`"read"`, jInt(j+1)), o})
			mu.Unlock()
		}()
	}
	ops()
	wg.Wait()
	return reads
}

func init() {
	for _, sz := range []int{2, 3, 4, 5, 6, 7, 8, 16, 64, 255} {
		for _, en := range []string{"int", "str", "bytes", "neg"} {
			for _, v := range []int{1, 2, 3} {
				sz, enc, v := sz, keyEncs[en], v
				register("multi", fmt.Sprintf("bptree%d/%s/v%d", sz, en, v), func() SUT {
					return &multiSUT{t: bptree.NewBpTree(sz), enc: enc, v: v}
				})
			}
		}
	}
	for _, a := range alphabets {
		a := a
		register("trie", "tst/"+a.name, func() SUT { return &trieSUT{t: trie.New(), a: a} })
		register("trie", "tstnil/"+a.name, func() SUT { return &trieSUT{t: trie.New(), a: a, nils: true} })
	}
	for _, en := range []string{"int", "str", "bytes"} {
		for n := 1; n <= 4; n++ {
			enc, n := keyEncs[en], n
			register("snap", fmt.Sprintf("imm%d/%s", n, en), func() SUT {
				return &snapSUT{t: avl.NewImmutableAvlTree(), sn: make([]*avl.ImmutableAvlNode, n), enc: enc}
			})
		}
	}
	workloads["multi"] = func(rng *rand.Rand, n, k int) []Op {
		const v = 3
		at := 0
		size := 0
		stored := func() int {
			at++
			x := pickKey(rng, k, at)
			if x%2 == 1 {
				if x == k {
					return x - 1
				}
				x++
			}
			return x
		}
		val := func() int { return 1 + rng.Intn(v) }
		any := func() int { at++; return pickKey(rng, k, at) }
		add := choice{10, func() Op { size++; return mkop("add", stored(), val()) }}
		hot := choice{10, func() Op { size++; return mkop("add", 2+2*rng.Intn(2), val()) }}
		asc := choice{10, func() Op { at++; size++; return mkop("add", 2+2*(at%(k/2)), val()) }}
		rm := choice{4, func() Op { return mkop("removewhere", any(), rng.Intn(v+3)) }}
		rmAll := choice{3, func() Op { return mkop("removewhere", stored(), v+1) }}
		rp := choice{2, func() Op { return mkop("replace", any(), rng.Intn(v+3), val()) }}
		q := []choice{{1, func() Op { return mkop("has", any()) }}, {1, func() Op { return mkop("count", any()) }},
			{1, func() Op { return mkop("find", any()) }}, {1, func() Op { return mkop("size") }},
			{2, func() Op { return mkop("range", any(), any()) }}}
		with := func(cs ...choice) []choice { return append(cs, q...) }
		ops := tide(rng, n/3, k/2, func(x int) Op { return mkop("add", 2*x, val()) },
			func(x int) Op { return mkop("removewhere", 2*x, v+1) }, func() Op { return q[rng.Intn(len(q))].op() })
		return append(ops, phased(rng, n-len(ops), with(add), with(hot, rm), with(asc), with(rm, rmAll, rp), with(add, rm, rp, rmAll), with(hot))...)
	}
	// words must be listed as TrieSpec lists them
	words := func(a, d int) (ws [][]int) {
		var gen func(p []int, d int)
		gen = func(p []int, d int) {
			for x := 1; x <= a && d > 0; x++ {
				w := append(append([]int{}, p...), x)
				ws = append(ws, w)
				gen(w, d-1)
			}
		}
		gen(nil, d)
		return ws
	}
	trieLoad := func(a, d int) workload {
		ws := words(a, d)
		bad := [][]int{{}, {0}, {1, 0}, {0, 1}, {1, 1, 0}, {1, 0, 1}}
		return func(rng *rand.Rand, n, k int) []Op {
			at := 0
			ix := func() int {
				at++
				if rng.Intn(3) == 0 {
					return 1 + rng.Intn(len(ws))
				}
				return pickKey(rng, len(ws), at)
			}
			op := func(w int, f func(i int) Op) choice { return choice{w, func() Op { return f(ix()) }} }
			put := op(8, func(i int) Op { return mkop("put", i, 1+rng.Intn(9), ws[i-1]) })
			get := op(2, func(i int) Op { return mkop("get", i, ws[i-1]) })
			has := op(1, func(i int) Op { return mkop("has", i, ws[i-1]) })
			rem := op(8, func(i int) Op { return mkop("remove", i, ws[i-1]) })
			pre := op(3, func(i int) Op {
				w := append([]int{}, ws[i-1]...)
				w = w[:rng.Intn(len(w)+1)]
				if rng.Intn(4) == 0 {
					w = append(w, 1+rng.Intn(a))
				}
				return mkop("prefix", w)
			})
			bads := op(1, func(i int) Op {
				return mkop([]string{"badput", "badget", "badhas", "badremove"}[rng.Intn(4)], bad[rng.Intn(len(bad))])
			})
			in := func(x int) Op { return mkop("put", x, 1+rng.Intn(9), ws[x-1]) }
			out := func(x int) Op { return mkop("remove", x, ws[x-1]) }
			ask := func() Op { return []choice{get, has, pre, bads}[rng.Intn(4)].op() }
			ops := append(tide(rng, n/3, len(ws), in, out, ask), churn(rng, n/3, len(ws), in, out, ask)...)
			return append(ops, phased(rng, n-len(ops), []choice{put, get, has, pre, bads}, []choice{rem, get, has, pre, bads},
				[]choice{put, rem, get, has, pre, bads}, []choice{put, rem})...)
		}
	}
	workloads["trie34"] = trieLoad(3, 4)
	workloads["trie26"] = trieLoad(2, 6)
	workloads["trie53"] = trieLoad(5, 3)
	// snapshots of tall trees, which then lose one side
	workloads["snapbig"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		for how := rng.Intn(3); len(ops) < n; how = (how + 1) % 3 {
			c, left := k-rng.Intn(k/4), how == 0
			var gone []int // the items near the root of a tree filled in order first
			for s := 1 << 12; s > 0; s /= 2 {
				for x := s; x <= c; x += 2 * s {
					gone = append(gone, x)
				}
			}
			for i := 0; i < c; i++ {
				x := 1 + i
				if left {
					x = c - i
				}
				ops = append(ops, mkop("put", x, 1+rng.Intn(9)))
			}
			ops = append(ops, mkop("snap", 1))
			for i := 0; i < c*3/4; i++ {
				x := []int{c - i, 1 + i, gone[i]}[how]
				ops = append(ops, mkop("remove", x))
				switch rng.Intn(100) {
				case 0:
					ops = append(ops, mkop("snap", 2+rng.Intn(2)))
				case 1:
					ops = append(ops, mkop("nget", 1, 1+rng.Intn(c)))
				case 2:
					ops = append(ops, mkop("nremove", 1, 1+rng.Intn(c), 3))
				}
			}
		}
		return ops[:n]
	}
	workloads["snap"] = func(rng *rand.Rand, n, k int) []Op {
		const slots = 3
		at := 0
		x := func() int { at++; return pickKey(rng, k, at) }
		j := func() int { return 1 + rng.Intn(slots) }
		v := func() int { return 1 + rng.Intn(9) }
		put := choice{10, func() Op { return mkop("put", x(), v()) }}
		asc := choice{10, func() Op { at++; return mkop("put", 1+at%k, v()) }}
		rem := choice{8, func() Op { return mkop("remove", x()) }}
		q := []choice{{1, func() Op { return mkop("snap", j()) }}, {2, func() Op { return mkop("nput", j(), x(), v(), j()) }},
			{2, func() Op { return mkop("nremove", j(), x(), j()) }}, {1, func() Op { return mkop("nget", j(), x()) }},
			{1, func() Op { return mkop("nhas", j(), x()) }}}
		with := func(cs ...choice) []choice { return append(cs, q...) }
		ops := tide(rng, n/3, k, func(x int) Op { return mkop("put", x, v()) }, func(x int) Op { return mkop("remove", x) },
			func() Op { return q[rng.Intn(len(q))].op() })
		ops = append(ops, phased(rng, n-len(ops), with(put), with(asc), with(rem), with(put, rem))...)
		// an iterator is stepped through while the other calls go on
		var out []Op
		left := 0
		for _, o := range ops {
			out = append(out, o)
			if left == 0 && rng.Intn(30) == 0 {
				out = append(out, mkop("iter", rng.Intn(slots+1)))
				left = 1 + rng.Intn(40)
			} else if left > 0 {
				out = append(out, mkop("next"))
				left--
			}
		}
		return out
	}
}
