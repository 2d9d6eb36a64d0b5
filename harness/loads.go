package main

import "math/rand"

// phased builds a run out of phases; each phase is a weighted choice of calls.
// The first weights are the growing ones, so that sizes go up and down.
type choice struct {
	w  int
	op func() Op
}

func phased(rng *rand.Rand, n int, phases ...[]choice) (ops []Op) {
	for len(ops) < n {
		ph := phases[rng.Intn(len(phases))]
		tot := 0
		for _, c := range ph {
			tot += c.w
		}
		plen := 1 + rng.Intn(1+n/6)
		for i := 0; i < plen && len(ops) < n; i++ {
			x := rng.Intn(tot)
			for _, c := range ph {
				if x -= c.w; x < 0 {
					ops = append(ops, c.op())
					break
				}
			}
		}
	}
	return ops
}

// tide fills to a high mark and drains to almost nothing, again and again, in
// ascending, descending or random order, with a query every few calls.
func tide(rng *rand.Rand, n, k int, add, del func(x int) Op, q func() Op) (ops []Op) {
	order := func(c int) (xs []int) {
		xs = rng.Perm(c)
		if how := rng.Intn(3); how < 2 {
			for i := range xs {
				xs[i] = i
				if how == 1 {
					xs[i] = c - 1 - i
				}
			}
		}
		return xs
	}
	put := func(o Op) {
		ops = append(ops, o)
		for rng.Intn(5) == 0 {
			ops = append(ops, q())
		}
	}
	for len(ops) < n {
		c := (n - len(ops)) * 2 / 5
		if c > k {
			c = k
		}
		if c < 4 {
			break
		}
		for _, x := range order(c) {
			put(add(x + 1))
		}
		rest := rng.Intn(4)
		for _, x := range order(c)[rest:] {
			put(del(x + 1))
		}
	}
	if len(ops) > n {
		ops = ops[:n]
	}
	return ops
}

// churn keeps a handful of keys coming and going, often neighbours, takes them
// all out and goes on with another handful: everything that only happens while
// a structure is nearly empty happens over and over.
func churn(rng *rand.Rand, n, k int, add, del func(x int) Op, q func() Op) (ops []Op) {
	for len(ops) < n {
		c := 3 + rng.Intn(7)
		if c > k {
			c = k
		}
		keys := make([]int, c)
		base, span := rng.Intn(k), 1+rng.Intn(4)
		far := rng.Intn(2) == 0
		for i := range keys {
			keys[i] = 1 + (base+i*span)%k
			if far {
				keys[i] = 1 + rng.Intn(k)
			}
		}
		for i := 0; i < 5*c; i++ {
			if x := keys[rng.Intn(c)]; rng.Intn(5) < 3 {
				ops = append(ops, add(x))
			} else {
				ops = append(ops, del(x))
			}
			if rng.Intn(6) == 0 {
				ops = append(ops, q())
			}
		}
		for _, i := range rng.Perm(c) {
			ops = append(ops, del(keys[i]))
		}
	}
	return ops[:n]
}

func init() {
	seq := func(rng *rand.Rand, k, max int) []int {
		q := make([]int, rng.Intn(max+1))
		for i := range q {
			q[i] = 1 + rng.Intn(k)
		}
		return q
	}
	// a list of up to a few hundred items of k kinds; size is an estimate used
	// to aim positions around the end
	list := func(codec bool) workload {
		return func(rng *rand.Rand, n, k int) []Op {
			size := 0
			x := func() int { return 1 + rng.Intn(k) }
			pos := func() int {
				switch rng.Intn(5) {
				case 0:
					return size - 1 + rng.Intn(3)
				case 1:
					return rng.Intn(3) - 1
				}
				return rng.Intn(size + 2)
			}
			appnd := choice{6, func() Op { size++; return mkop("append", x()) }}
			push := choice{2, func() Op { size++; return mkop("push", x()) }}
			ins := choice{4, func() Op { size++; return mkop("insert", pos(), x()) }}
			ext := choice{1, func() Op { q := seq(rng, k, 12); size += len(q); return mkop("extend", q) }}
			dec := func() {
				if size > 0 {
					size--
				}
			}
			rem := choice{5, func() Op { p := pos(); dec(); return mkop("remove", p) }}
			pop := choice{5, func() Op { dec(); return mkop("pop") }}
			set := choice{2, func() Op { return mkop("set", pos(), x()) }}
			get := choice{2, func() Op { return mkop("get", pos()) }}
			has := choice{1, func() Op { return mkop("has", x()) }}
			sorts := choice{1, func() Op { return mkop("sort") }}
			ph := [][]choice{{appnd, push, ins, ext, set, get, has}, {rem, pop, set, get, has},
				{appnd, push, ins, rem, pop, set, get, has}, {appnd, push, ins, pop, sorts}, {appnd}, {pop}, {ins, rem}}
			if codec {
				c := choice{1, func() Op {
					if rng.Intn(5) == 0 {
						return mkop("badsize", x())
					}
					if x := rng.Intn(4); x < 2 {
						return mkop([]string{"badwrite", "badread"}[x])
					}
					return mkop("roundtrip", 1+rng.Intn(5))
				}}
				for i := range ph {
					ph[i] = append(ph[i], c)
				}
			} else {
				ph = append(ph, []choice{appnd, {0, nil}}, []choice{ext, ext})
			}
			ops := tide(rng, n/2, 200, func(int) Op { return []choice{appnd, appnd, push, ins}[rng.Intn(4)].op() },
				func(int) Op {
					dec()
					return []Op{mkop("pop"), mkop("remove", 0), mkop("remove", size), mkop("remove", size/2)}[rng.Intn(4)]
				}, func() Op { return []choice{set, get, has, sorts}[rng.Intn(4)].op() })
			ops = append(ops, phased(rng, n-len(ops), ph...)...)
			if rng.Intn(3) == 0 {
				ops[len(ops)*3/4] = mkop("clear")
			}
			return ops
		}
	}
	workloads["list"] = list(false)
	workloads["listcodec"] = list(true)
	sorted := func(codec bool) workload {
		return func(rng *rand.Rand, n, k int) []Op {
			at := 0
			x := func() int { at++; return pickKey(rng, k, at) }
			add := choice{8, func() Op { return mkop("add", x()) }}
			asc := choice{8, func() Op { at++; return mkop("add", 1+at%k) }}
			desc := choice{8, func() Op { at++; return mkop("add", k-at%k) }}
			ext := choice{1, func() Op { return mkop("extend", seq(rng, k, 8)) }}
			del := choice{6, func() Op { return mkop("delete", x()) }}
			rem := choice{3, func() Op { return mkop("remove", rng.Intn(k+2)-1) }}
			rem0 := choice{3, func() Op { return mkop("remove", rng.Intn(6)) }}
			q := []choice{{2, func() Op { return mkop("find", x()) }}, {1, func() Op { return mkop("has", x()) }},
				{1, func() Op { return mkop("item", x()) }}, {1, func() Op { return mkop("get", rng.Intn(k+2)-1) }}}
			if codec {
				q = append(q, choice{1, func() Op {
					if x := rng.Intn(4); x < 2 {
						return mkop([]string{"badwrite", "badread"}[x])
					}
					return mkop("roundtrip", 1+rng.Intn(5))
				}})
			}
			with := func(cs ...choice) []choice { return append(cs, q...) }
			ops := tide(rng, n/2, k, func(x int) Op { return mkop("add", x) }, func(x int) Op { return mkop("delete", x) },
				func() Op { return q[rng.Intn(len(q))].op() })
			// a few items over and over, so that runs of equal ones get long
			at0 := 1 + rng.Intn(k)
			few := func() int { return 1 + (at0+rng.Intn(3))%k }
			hot := choice{30, func() Op { return mkop("add", few()) }}
			cool := choice{30, func() Op { return mkop("delete", few()) }}
			warm := choice{20, func() Op { return mkop("find", few()) }}
			ops = append(ops, phased(rng, n-len(ops), with(add, ext), with(asc), with(desc), with(del, rem, rem0), with(add, del, rem), with(add, del),
				with(hot, warm), with(cool, warm), with(hot, cool))...)
			if rng.Intn(3) == 0 {
				ops[len(ops)*3/4] = mkop("clear")
			}
			return ops
		}
	}
	// fills in ascending, descending and random order, and loses most of it again
	workloads["mapbig"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		for how := rng.Intn(3); len(ops) < n; how = (how + 1) % 3 {
			in, out, c := rng.Perm(k), rng.Perm(k), k-rng.Intn(k/8)
			for i := 0; i < c; i++ {
				x := []int{1 + i, k - i, 1 + in[i]}[how]
				if ops = append(ops, mkop("put", x, 1+rng.Intn(9))); rng.Intn(12) == 0 {
					ops = append(ops, mkop([]string{"get", "has"}[rng.Intn(2)], 1+rng.Intn(k)))
				}
			}
			for i := 0; i < k*7/8; i++ {
				ops = append(ops, mkop("remove", []int{1 + out[i], 1 + i, k - i}[how]))
			}
		}
		return ops[:n]
	}
	// runs of hundreds of equal items
	workloads["sortedruns"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		q := func(x int) { ops = append(ops, mkop([]string{"find", "has", "item"}[rng.Intn(3)], x)) }
		for len(ops) < n {
			x, c := 1+rng.Intn(k), 400+rng.Intn(600)
			for i := 0; i < c; i++ {
				ops = append(ops, mkop("add", x))
				if rng.Intn(15) == 0 {
					ops = append(ops, mkop("add", 1+rng.Intn(k)), mkop("find", x))
				}
			}
			for y := 1; y <= k; y++ {
				q(y)
			}
			for i := c * 3 / 4; i > 0; i-- {
				if ops = append(ops, mkop("delete", x)); rng.Intn(15) == 0 {
					q(1 + rng.Intn(k))
				}
			}
		}
		return ops[:n]
	}
	workloads["sorted"] = sorted(false)
	workloads["sortedcodec"] = sorted(true)
	workloads["deque"] = func(rng *rand.Rand, n, k int) []Op {
		at := 0
		x := func() int { at++; return pickKey(rng, k, at) }
		in := []choice{{4, func() Op { return mkop("enqfront", x()) }}, {4, func() Op { return mkop("enqback", x()) }},
			{2, func() Op { return mkop("push", x()) }}}
		out := []choice{{4, func() Op { return mkop("deqfront") }}, {4, func() Op { return mkop("deqback") }},
			{2, func() Op { return mkop("pop") }}}
		q := []choice{{1, func() Op { return mkop("first") }}, {1, func() Op { return mkop("last") }},
			{2, func() Op { return mkop("has", x()) }}}
		both := append(append([]choice{}, in...), out...)
		ops := tide(rng, n/3, k, func(x int) Op { return mkop([]string{"enqfront", "enqback", "push"}[rng.Intn(3)], x) },
			func(int) Op { return out[rng.Intn(3)].op() }, func() Op { return q[rng.Intn(3)].op() })
		return append(ops, phased(rng, n-len(ops), append(in, q...), append(out, q...), append(both, q...),
			[]choice{in[1], out[0]}, []choice{in[0], out[1]}, []choice{{1, func() Op { at++; return mkop("enqback", 1+at%k) }}})...)
	}
	prio := func(p int, add bool) workload {
		return func(rng *rand.Rand, n, k int) []Op {
			at := 0
			x := func() int { at++; return pickKey(rng, k, at) }
			pp := func() int { return 1 + rng.Intn(p) }
			in := []choice{{6, func() Op { return mkop("push", pp(), x()) }}}
			asc := []choice{{6, func() Op { at++; return mkop("push", 1+at%p, x()) }}}
			desc := []choice{{6, func() Op { at++; return mkop("push", p-at%p, x()) }}}
			if add {
				in = append(in, choice{6, func() Op { return mkop("add", pp(), x()) }})
			}
			out := choice{5, func() Op { return mkop("pop") }}
			q := choice{2, func() Op { return mkop("peek") }}
			ops := tide(rng, n/3, k, func(x int) Op { return mkop("push", 1+(x-1)%p, x) }, func(int) Op { return mkop("pop") }, q.op)
			return append(ops, phased(rng, n-len(ops), append(in, q), append(asc, q), append(desc, q), []choice{out, q}, append(in, out, q))...)
		}
	}
	// hundreds of items at a time, better and better ones, worse and worse ones
	workloads["heapbig"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		for how := rng.Intn(3); len(ops) < n; how = (how + 1) % 3 {
			c := 400 + rng.Intn(600)
			for i := 0; i < c; i++ {
				p := []int{1 + i*30/c, 30 - i*30/c, 1 + rng.Intn(30)}[how]
				if ops = append(ops, mkop("push", p, 1+rng.Intn(k))); rng.Intn(20) == 0 {
					ops = append(ops, mkop("peek"))
				}
			}
			for i := rng.Intn(40); i < c; i++ {
				ops = append(ops, mkop("pop"))
			}
		}
		return ops[:n]
	}
	workloads["heap"] = prio(30, false)
	workloads["heap3"] = prio(3, false)
	workloads["upq"] = prio(30, true)
	workloads["upq3"] = prio(3, true)
	workloads["set"] = func(rng *rand.Rand, n, k int) []Op {
		at := 0
		x := func() int { at++; return pickKey(rng, k, at) }
		add := choice{8, func() Op { return mkop("add", x()) }}
		asc := choice{8, func() Op { at++; return mkop("add", 1+at%k) }}
		ext := choice{1, func() Op { return mkop("extend", seq(rng, k, 8)) }}
		del := choice{8, func() Op { return mkop("delete", x()) }}
		q := []choice{{2, func() Op { return mkop("has", x()) }}, {1, func() Op { return mkop("item", x()) }},
			{1, func() Op { return mkop("size") }}, {1, func() Op { return mkop("random") }}}
		with := func(cs ...choice) []choice { return append(cs, q...) }
		ops := tide(rng, n/2, k, func(x int) Op { return mkop("add", x) }, func(x int) Op { return mkop("delete", x) },
			func() Op { return q[rng.Intn(len(q))].op() })
		return append(ops, phased(rng, n-len(ops), with(add, ext), with(asc), with(del), with(add, del))...)
	}
	workloads["mapset"] = func(rng *rand.Rand, n, k int) []Op {
		at := 0
		x := func() int { at++; return pickKey(rng, k, at) }
		v := func() int { return 1 + rng.Intn(9) }
		in := []choice{{4, func() Op { return mkop("put", x(), v()) }}, {4, func() Op { return mkop("add", x(), v()) }}}
		out := []choice{{2, func() Op { return mkop("remove", x()) }}, {2, func() Op { return mkop("delete", x()) }},
			{2, func() Op { return mkop("deletee", x()) }}}
		var q []choice
		for _, o := range []string{"get", "has", "item", "iteme", "hase", "addbare"} {
			o := o
			q = append(q, choice{1, func() Op { return mkop(o, x()) }})
		}
		q = append(q, choice{1, func() Op { return mkop("size") }})
		both := append(append([]choice{}, in...), out...)
		ops := tide(rng, n/2, k, func(x int) Op { return mkop("put", x, v()) }, func(x int) Op { return mkop("remove", x) },
			func() Op { return q[rng.Intn(len(q))].op() })
		return append(ops, phased(rng, n-len(ops), append(in, q...), append(out, q...), append(both, q...))...)
	}
	// a source grown or cut to some size, a copy, a burst of operations on both
	for _, sk := range []string{"list", "sorted", "slice"} {
		for _, ck := range []string{"list", "sorted"} {
			kinds := [2]string{sk, ck}
			workloads["copy-"+sk+"-"+ck] = func(rng *rand.Rand, n, k int) (ops []Op) {
				var size [2]int // exact for slices, a guess otherwise
				max := 40
				x := func() int { return 1 + rng.Intn(k) }
				do := func(j int, grow int) {
					at := func() int { return rng.Intn(size[j] + 1) }
					up := rng.Intn(10) < grow
					if up {
						size[j]++
					} else if size[j] > 0 {
						size[j]--
					}
					var op Op
					switch kinds[j] {
					case "list":
						switch r := rng.Intn(8); {
						case r == 0:
							op = mkop("set", j+1, at(), x())
						case up && r < 4:
							op = mkop("insert", j+1, at(), x())
						case up:
							op = mkop("append", j+1, x())
						default:
							op = mkop("remove", j+1, at())
						}
					case "sorted":
						switch {
						case up:
							op = mkop("add", j+1, x())
						case rng.Intn(2) == 0:
							op = mkop("remove", j+1, at())
						default:
							op = mkop("delete", j+1, x())
						}
					case "slice":
						switch {
						case up:
							op = mkop("sappend", j+1, x())
						case size[j] > 0:
							op = mkop("scut", j+1)
						default:
							op = mkop("sappend", j+1, x())
							size[j]++
						}
						if size[j] > 0 && rng.Intn(3) == 0 {
							ops = append(ops, op)
							op = mkop("sset", j+1, rng.Intn(size[j]), x())
						}
					}
					ops = append(ops, op)
				}
				for len(ops) < n {
					t := rng.Intn(1 + rng.Intn(max))
					for i := 0; size[0] != t && i < max; i++ {
						if size[0] < t {
							do(0, 10)
						} else {
							do(0, 0)
						}
					}
					if kinds[0] != "slice" && rng.Intn(6) == 0 {
						ops = append(ops, mkop("clear", 1))
						size[0] = 0
					}
					ops = append(ops, mkop("copy"))
					size[1] = size[0]
					lead := rng.Intn(3)
					for b := 2 + rng.Intn(12); b > 0; b-- {
						j := lead
						if lead == 2 {
							j = rng.Intn(2)
						}
						do(j, 3+rng.Intn(5))
					}
					if rng.Intn(6) == 0 {
						ops = append(ops, mkop("clear", 2))
						size[1] = 0
					}
				}
				return ops[:n]
			}
		}
	}
	workloads["algebra"] = func(rng *rand.Rand, n, k int) []Op {
		at := 0
		x := func() int { at++; return pickKey(rng, k, at) }
		h := func() int { return 1 + rng.Intn(7)/3%3 }
		add := choice{8, func() Op { return mkop("add", h(), x()) }}
		del := choice{6, func() Op { return mkop("delete", h(), x()) }}
		hs := choice{2, func() Op { return mkop("has", h(), x()) }}
		var q []choice
		for _, o := range []string{"union", "intersect", "subtract", "subset", "superset", "psubset", "psuperset", "overlap"} {
			o := o
			q = append(q, choice{1, func() Op {
				p := [][2]int{{1, 2}, {2, 1}, {1, 1}, {3, 2}, {1, 3}}[rng.Intn(9)/2]
				return mkop(o, p[0], p[1])
			}})
		}
		// make the operands equal or nearly so every now and then
		same := choice{2, func() Op { at++; return mkop("add", 1+at%2, 1+(at/2)%k) }}
		with := func(cs ...choice) []choice { return append(append(cs, q...), hs) }
		ops := phased(rng, n/2, with(add), with(del), with(add, del), with(same, same, same, same), q)
		// each operand fills a stretch of its own and is emptied elsewhere, so
		// that one goes on, begins or has gaps where the other does not
		for round := 0; len(ops) < n; {
			var in [3][2]int
			for j := range in {
				in[j][0] = 1 + rng.Intn(k)
				in[j][1] = in[j][0] + rng.Intn(k)
			}
			if round++; round%2 == 1 { // much in common
				in[0] = [2]int{1 + rng.Intn(1+k/4), k - rng.Intn(1+k/4)}
				in[1] = [2]int{1 + rng.Intn(1+k/4), k - rng.Intn(1+k/4)}
			}
			for x := 1; x <= k; x++ {
				for j, w := range in[:2] {
					if w[0] <= x && x <= w[1] && rng.Intn(8) > 0 {
						ops = append(ops, mkop("add", j+1, x))
					} else if rng.Intn(4) > 0 {
						ops = append(ops, mkop("delete", j+1, x))
					}
				}
			}
			for _, c := range q {
				ops = append(ops, c.op(), c.op(), c.op(), c.op())
			}
		}
		return ops[:n]
	}
	workloads["mapalg"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		var h [3]map[int]int // what the maps hold, to know whether operands agree
		for j := range h {
			h[j] = map[int]int{}
		}
		put := func(j, x, v int) {
			h[j-1][x] = v
			ops = append(ops, mkop("put", j, x, v))
		}
		for len(ops) < n {
			x, j := 1+rng.Intn(k), 1+rng.Intn(3)
			switch rng.Intn(8) {
			case 0, 1:
				put(j, x, 1+rng.Intn(9))
			case 2:
				for i := rng.Intn(k); i > 0; i-- {
					put(j, x, 1+rng.Intn(3))
					x = 1 + x%k
				}
			case 3:
				for i := rng.Intn(k); i > 0; i-- {
					delete(h[j-1], x)
					ops = append(ops, mkop("remove", j, x))
					x = 1 + x%k
				}
			case 4:
				ops = append(ops, mkop("get", j, x))
			case 5:
				h[2] = map[int]int{}
				for x, v := range h[0] {
					h[2][x] = v
				}
				ops = append(ops, mkop("from", 1))
			case 6:
				p := [][2]int{{1, 2}, {2, 1}, {1, 1}}[rng.Intn(5)/2]
				ops = append(ops, mkop([]string{"subset", "superset", "psubset", "psuperset"}[rng.Intn(4)], p[0], p[1]))
			case 7:
				p := [][2]int{{1, 2}, {2, 1}, {1, 1}}[rng.Intn(5)/2]
				a, b := h[p[0]-1], h[p[1]-1]
				o := []string{"union", "intersect", "subtract"}[rng.Intn(3)]
				for x := 1; x <= k && o != "subtract"; x++ {
					if a[x] != 0 && b[x] != 0 && a[x] != b[x] {
						put(p[1], x, a[x])
					}
				}
				r := map[int]int{}
				for x := 1; x <= k; x++ {
					if v := a[x]; v != 0 && (o == "union" || (o == "intersect") == (b[x] != 0)) {
						r[x] = v
					} else if o == "union" && b[x] != 0 {
						r[x] = b[x]
					}
				}
				h[2] = r
				ops = append(ops, mkop(o, p[0], p[1]))
			}
		}
		return ops[:n]
	}
}
