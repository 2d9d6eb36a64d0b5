package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"

	trand "github.com/timtadh/data-structures/rand"
)

// seeds behind the small numbers of the specification
var seedOf = []int64{0, 0, 1, -1, math.MaxInt64, math.MinInt64, 89482311, 1 << 31, 1<<31 - 1, 12345678901}

// methods that draw from a generator; the first ones draw exactly one element
var drawers = []func(r *rand.Rand) string{
	func(r *rand.Rand) string { return fmt.Sprint(r.Int63()) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Uint64()) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Uint32()) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Int31()) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Int()) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Int63n(1 << 60)) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Int31n(1 << 30)) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Int63n(10)) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Int31n(7)) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Intn(1000)) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Float64()) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Float32()) },
	func(r *rand.Rand) string { return fmt.Sprint(r.NormFloat64()) },
	func(r *rand.Rand) string { return fmt.Sprint(r.ExpFloat64()) },
	func(r *rand.Rand) string { return fmt.Sprint(r.Perm(5)) },
	func(r *rand.Rand) string {
		s := []int{1, 2, 3, 4, 5, 6}
		r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
		return fmt.Sprint(s)
	},
	func(r *rand.Rand) string {
		b := make([]byte, 5)
		n, err := r.Read(b)
		return fmt.Sprint(b, n, err)
	},
}

const singles = 7

type randSut struct {
	r, ref  *rand.Rand
	seed, n int
}

func (s *randSut) Roots() []interface{} { return []interface{}{s.r, s.ref} }
func (s *randSut) Obs() string          { return rOK }
func (s *randSut) Do(op Op) string {
	switch op.Name {
	case "seed":
		s.seed, s.n = op.A[0].I, 0
		s.r.Seed(seedOf[s.seed])
		s.ref = rand.New(rand.NewSource(seedOf[s.seed]))
		return rOK
	case "draw":
		a, b := drawers[op.A[0].I-1](s.r), drawers[op.A[0].I-1](s.ref)
		s.n++
		if a != b {
			return jList(jStr("odd"), jStr(a+" instead of "+b))
		}
		return jList(jStr("ok"), jInt(s.seed), jInt(s.n))
	}
	panic("unknown " + op.Raw)
}

func init() {
	register("rand", "seq", func() SUT {
		return &randSut{r: trand.ThreadSafeRand(seedOf[1]), ref: rand.New(rand.NewSource(seedOf[1])), seed: 1}
	})
	addScenario("rand", "draw", func(rng *rand.Rand, quiet bool) []string { return drawRun(rng, quiet, false) })
	addScenario("rand", "seed", func(rng *rand.Rand, quiet bool) []string { return drawRun(rng, quiet, true) })
}

func drawRun(rng *rand.Rand, quiet, reseed bool) []string {
	seeds := []int64{rng.Int63() - rng.Int63()}
	if rng.Intn(3) == 0 {
		seeds[0] = seedOf[rng.Intn(len(seedOf))]
	}
	lines := []string{`{"e":["new","rand"]}`}
	r := trand.ThreadSafeRand(seeds[0])
	type item struct {
		m int // method, or -1 for a reseeding
		v string
	}
	var rounds [][][]item
	total := 0
	for round := 1 + rng.Intn(4); round > 0; round-- {
		gs := 1 + rng.Intn(6)
		got := make([][]item, gs)
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < gs; g++ {
			n, fr, me := rng.Intn(40), fork(rng), g
			total += n
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < n; i++ {
					m := fr.Intn(singles)
					got[me] = append(got[me], item{m, drawers[m](r)})
					if fr.Intn(8) == 0 {
						nap(fr, 30)
					}
				}
			}()
		}
		if reseed && rng.Intn(2) == 0 {
			var mine []int64
			for k := 1 + rng.Intn(2); k > 0; k-- {
				mine = append(mine, rng.Int63())
			}
			seeds = append(seeds, mine...)
			got = append(got, nil)
			fr := fork(rng)
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, s := range mine {
					nap(fr, 60)
					r.Seed(s)
				}
			}()
			for range mine {
				got[gs] = append(got[gs], item{m: -1})
			}
		}
		close(start)
		wg.Wait()
		rounds = append(rounds, got)
	}
	if quiet {
		return nil
	}
	// which elements can a number be?
	at := map[item][]string{}
	for e, s := range seeds {
		for m := 0; m < singles; m++ {
			ref := rand.New(rand.NewSource(s))
			for i := 1; i <= total; i++ {
				k := item{m, drawers[m](ref)}
				at[k] = append(at[k], jInts([]int{e, i}))
			}
		}
	}
	for _, got := range rounds {
		var gs []string
		for _, g := range got {
			var xs []string
			for _, x := range g {
				if x.m < 0 {
					xs = append(xs, `["seed"]`)
				} else {
					xs = append(xs, `["draw",[`+strings.Join(at[x], ",")+`]]`)
				}
			}
			gs = append(gs, "["+strings.Join(xs, ",")+"]")
		}
		lines = append(lines, `{"e":["round",[`+strings.Join(gs, ",")+`]]}`)
	}
	return lines
}
