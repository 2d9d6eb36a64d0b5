package main

import (
	"bytes"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"strings"
	"sync"
)

// A workload produces the operations of a long run. It sees nothing but its
// own random source, so a run is determined by the seed.
type workload func(rng *rand.Rand, n int, k int) []Op

var workloads = map[string]workload{}

func mkop(name string, args ...interface{}) Op {
	xs := []string{jStr(name)}
	for _, a := range args {
		switch y := a.(type) {
		case int:
			xs = append(xs, jInt(y))
		case []int:
			xs = append(xs, jInts(y))
		default:
			panic("mkop")
		}
	}
	return parseOp(jList(xs...))
}

// tidy keeps results comparable for TLC: everything unusual becomes a
// one element sequence.
func tidy(r string) string {
	if strings.HasPrefix(r, `["panic"`) || strings.HasPrefix(r, `["odd"`) {
		i := strings.IndexByte(r, ',')
		if i > 0 {
			return r[:i] + "]"
		}
	}
	return r
}

// cmdRecord runs workloads on systems and writes one trace: a "new" event for
// every system, then each call with its result.
func cmdRecord(args []string) {
	fs := flag.NewFlagSet("record", flag.ExitOnError)
	model := fs.String("model", "", "")
	suts := fs.String("suts", "*", "")
	load := fs.String("load", "", "workload")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 1000, "operations per system")
	k := fs.Int("k", 100, "size of the key space")
	obsEvery := fs.Int("obs", 200, "operations between observations")
	shapes := fs.Bool("shapes", false, "also record shapes")
	out := fs.String("out", "", "trace file")
	jdir := fs.String("journal", "", "")
	readers := fs.Int("readers", 0, "concurrent readers")
	shared := fs.Int("shared", 0, "goroutines querying a system between the operations")
	apart := fs.Int("apart", 0, "copies of each system running at the same time")
	must(fs.Parse(args))
	f, err := os.Create(*out)
	must(err)
	var hs []*heart
	names := pick(*model, *suts)
	one := func(w *bytes.Buffer, h *heart, si, hi int, name string) {
		rng := rand.New(rand.NewSource(*seed*7919 + int64(si)))
		h.begin(*jdir, hi, *model, name)
		h.flush()
		defer h.at.Store(0)
		s, e := safeNew(factories[*model][name])
		if e != "" {
			fmt.Fprintf(w, `{"e":["new",%s],"r":%s}`+"\n", jStr(name), tidy(e))
			return
		}
		fmt.Fprintf(w, `{"e":["new",%s],"r":%s}`+"\n", jStr(name), rOK)
		ops := workloads[*load](rng, *n, *k)
		if c, ok := s.(Concurrent); ok && *readers > 0 {
			for len(ops) > 0 {
				chunk := ops
				if len(chunk) > 25 {
					chunk = chunk[:25]
				}
				ops = ops[len(chunk):]
				var log []string
				h.flush()
				reads := c.Concurrently(func() {
					for _, op := range chunk {
						res := tidy(safeDo(s, op))
						if res != anyResult {
							log = append(log, fmt.Sprintf(`{"e":%s,"r":%s}`+"\n", op.Raw, res))
						}
					}
				}, *readers)
				// the readers look at nodes taken before the chunk
				for _, r := range reads {
					fmt.Fprintf(w, `{"e":%s,"r":%s}`+"\n", r[0], tidy(r[1]))
				}
				for _, l := range log {
					w.WriteString(l)
				}
			}
		}
		var qs []Op
		if *shared > 0 {
			for _, op := range ops {
				if queries[*model][op.Name] {
					qs = append(qs, op)
				} else if *model == "algebra" && queries[*model][op.Name+"q"] {
					qs = append(qs, mkop(op.Name+"q", op.A[0].I, op.A[1].I))
				}
			}
		}
		for i, op := range ops {
			h.add(op.Raw)
			h.flush()
			res := tidy(safeDo(s, op))
			if res == anyResult {
				continue
			}
			fmt.Fprintf(w, `{"e":%s,"r":%s}`+"\n", op.Raw, res)
			if strings.HasPrefix(res, `["panic"`) {
				break
			}
			if *shared > 0 && rng.Intn(25) == 0 {
				share(w, s, rng, qs, *shared)
			}
			if *obsEvery > 0 && (i%*obsEvery == *obsEvery-1 || i == len(ops)-1) {
				h.add(obsRaw)
				h.flush()
				fmt.Fprintf(w, `{"e":["OBS"],"r":%s}`+"\n", tidy(safeObs(s)))
				if sh, ok := s.(Shaper); ok && *shapes {
					fmt.Fprintf(w, `{"e":["SHAPE"],"r":["ok",%s]}`+"\n", sh.Shape())
				}
			}
		}
	}
	for i := 0; i == 0 || i < *apart; i++ {
		for range names {
			hs = append(hs, &heart{})
		}
	}
	stop := make(chan bool)
	go watch(hs, stop)
	if *apart == 0 {
		for si, name := range names {
			var w bytes.Buffer
			one(&w, hs[0], si, 0, name)
			_, err := f.Write(w.Bytes())
			must(err)
		}
	} else {
		// all of them at once, each with a workload of its own
		ws := make([]bytes.Buffer, len(hs))
		var wg sync.WaitGroup
		for i := range hs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				one(&ws[i], hs[i], i, i, names[i%len(names)])
			}(i)
		}
		wg.Wait()
		for i := range ws {
			_, err := f.Write(ws[i].Bytes())
			must(err)
		}
	}
	close(stop)
	must(f.Close())
}

// zipf-ish choice that prefers a moving window, so that keys are revisited
func pickKey(rng *rand.Rand, k int, at int) int {
	switch rng.Intn(4) {
	case 0:
		return 1 + rng.Intn(k)
	case 1:
		return 1 + (at+rng.Intn(1+k/10))%k
	default:
		return 1 + rng.Intn(1+k/3)
	}
}

func init() {
	// phases of growth, churn and shrinking; ascending, descending and random
	workloads["map"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		at := 0
		ops = tide(rng, n*4/5, k, func(x int) Op { return mkop("put", x, 1+rng.Intn(9)) },
			func(x int) Op { return mkop("remove", x) }, func() Op {
				if x := rng.Intn(9); x == 0 {
					return mkop("size")
				} else if x < 3 {
					return mkop("has", 1+rng.Intn(k))
				}
				return mkop("get", 1+rng.Intn(k))
			})
		for len(ops) < n {
			phase := rng.Intn(7)
			plen := 1 + rng.Intn(1+n/6)
			for i := 0; i < plen && len(ops) < n; i++ {
				at++
				switch phase {
				case 0: // ascending puts
					ops = append(ops, mkop("put", 1+at%k, 1+rng.Intn(9)))
				case 1: // descending puts
					ops = append(ops, mkop("put", k-at%k, 1+rng.Intn(9)))
				case 2: // random puts
					ops = append(ops, mkop("put", 1+rng.Intn(k), 1+rng.Intn(9)))
				case 3: // removals, many of absent keys
					ops = append(ops, mkop("remove", 1+rng.Intn(k)))
				case 4: // ascending removals
					ops = append(ops, mkop("remove", 1+at%k))
				default:
					key := pickKey(rng, k, at)
					switch rng.Intn(8) {
					case 0, 1, 2:
						ops = append(ops, mkop("put", key, 1+rng.Intn(9)))
					case 3, 4:
						ops = append(ops, mkop("remove", key))
					case 5:
						ops = append(ops, mkop("get", key))
					case 6:
						ops = append(ops, mkop("has", key))
					case 7:
						ops = append(ops, mkop("size"))
					}
				}
				if phase < 5 && rng.Intn(6) == 0 && len(ops) < n {
					key := 1 + rng.Intn(k)
					switch rng.Intn(3) {
					case 0:
						ops = append(ops, mkop("get", key))
					case 1:
						ops = append(ops, mkop("has", key))
					case 2:
						ops = append(ops, mkop("size"))
					}
				}
			}
		}
		return ops
	}
}
