package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// Graph is the complete labelled transition graph of a spec instance.
type Graph struct {
	Raw    []string // state text
	Obs    []string // expected observation
	Groups [][]Group
	Init   []int
	Edges  int
	names  []string
}

// Group holds the allowed outcomes of one operation in one state.
type Group struct {
	Op   Op
	Outs []Out
}

type Out struct {
	Res string
	To  int
}

func (g *Group) match(res string) *Out {
	for i := range g.Outs {
		if g.Outs[i].Res == res || g.Outs[i].Res == `["any"]` || res == anyResult {
			return &g.Outs[i]
		}
	}
	return nil
}

func (g *Group) wants() (w []string) {
	for _, o := range g.Outs {
		w = append(w, o.Res)
	}
	return w
}

func readLines(path string, f func(raw []byte)) {
	fh, err := os.Open(path)
	must(err)
	defer fh.Close()
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		b := sc.Bytes()
		if len(b) == 0 {
			continue
		}
		if b[0] == '"' { // TLC's CSVWrite quotes the JSON text
			var s string
			must(json.Unmarshal(b, &s))
			b = []byte(s)
		}
		f(b)
	}
	must(sc.Err())
}

func compact(r json.RawMessage) string {
	if bytes.IndexByte(r, ' ') < 0 {
		return string(r)
	}
	var b bytes.Buffer
	must(json.Compact(&b, r))
	return b.String()
}

func LoadGraph(path string) *Graph {
	g := &Graph{}
	idx := map[string]int{}
	state := func(raw string) int {
		if i, ok := idx[raw]; ok {
			return i
		}
		i := len(g.Raw)
		idx[raw] = i
		g.Raw = append(g.Raw, raw)
		g.Obs = append(g.Obs, "")
		g.Groups = append(g.Groups, nil)
		return i
	}
	ops := map[string]Op{}
	gi := map[string]int{}
	nm := map[string]bool{}
	readLines(path, func(raw []byte) {
		var l struct {
			S, E, R, T, O json.RawMessage
			I             *int
		}
		must(json.Unmarshal(raw, &l))
		s := state(compact(l.S))
		if l.O != nil {
			g.Obs[s] = compact(l.O)
			if l.I != nil && *l.I == 1 {
				g.Init = append(g.Init, s)
			}
			return
		}
		t := state(compact(l.T))
		e := compact(l.E)
		op, ok := ops[e]
		if !ok {
			op = parseOp(e)
			ops[e] = op
			nm[op.Name] = true
		}
		k := fmt.Sprintf("%d|%s", s, e)
		j, ok := gi[k]
		if !ok {
			j = len(g.Groups[s])
			gi[k] = j
			g.Groups[s] = append(g.Groups[s], Group{Op: op})
		}
		grp := &g.Groups[s][j]
		r := compact(l.R)
		for _, o := range grp.Outs {
			if o.Res == r {
				if o.To != t {
					panic("spec is ambiguous: same operation and result, two successors: " + e + " in " + g.Raw[s])
				}
				return
			}
		}
		grp.Outs = append(grp.Outs, Out{r, t})
		g.Edges++
	})
	for i := range g.Groups {
		sort.Slice(g.Groups[i], func(a, b int) bool { return g.Groups[i][a].Op.Raw < g.Groups[i][b].Op.Raw })
	}
	sort.Slice(g.Init, func(a, b int) bool { return g.Raw[g.Init[a]] < g.Raw[g.Init[b]] })
	for n := range nm {
		g.names = append(g.names, n)
	}
	sort.Strings(g.names)
	if len(g.Init) != 1 {
		panic(fmt.Sprintf("expected one initial state, got %d", len(g.Init)))
	}
	return g
}

// Step of a replay: the operation, what the spec allows and what happened.
type Step struct {
	Op     json.RawMessage   `json:"op"`
	Want   []json.RawMessage `json:"want,omitempty"`
	Got    json.RawMessage   `json:"got,omitempty"`
	Reject bool              `json:"reject,omitempty"` // the spec rejected Got
}

type Replay struct {
	Kind  string          `json:"kind"` // steps, case, sched
	Model string          `json:"model"`
	Sut   string          `json:"sut"`
	What  string          `json:"what"`
	Steps []Step          `json:"steps,omitempty"`
	Case  json.RawMessage `json:"case,omitempty"`
	Extra json.RawMessage `json:"extra,omitempty"`
}

func raws(xs []string) (r []json.RawMessage) {
	for _, x := range xs {
		r = append(r, json.RawMessage(x))
	}
	return r
}

func mkStep(op string, want []string, got string) Step {
	s := Step{Op: json.RawMessage(op), Want: raws(want)}
	if got != "" {
		s.Got = json.RawMessage(got)
	}
	return s
}

type node struct {
	state  int
	fp     FP
	parent int32
	op     Op // operation that led here; observations are operations too
}

type Stats struct {
	Sut        string            `json:"sut"`
	Nodes      int               `json:"nodes"`
	Calls      int64             `json:"calls"`
	Obs        int64             `json:"obs"`
	Closed     bool              `json:"closed"`
	Depth      int               `json:"depth"`
	SpecStates int               `json:"spec_states_reached"`
	WalkSteps  int64             `json:"walk_steps"`
	Walks      int64             `json:"walks"`
	OpCounts   map[string]int64  `json:"op_counts"`
	Sample     []json.RawMessage `json:"sample"`
}

// heart is the journal and the pulse of one worker
type heart struct {
	at  atomic.Int64 // unix nanos of the current call, 0 when idle
	f   *os.File
	buf []byte
	off int64
}

func (h *heart) begin(dir string, w int, model, sut string) {
	if h.f == nil && dir != "" {
		f, err := os.Create(filepath.Join(dir, fmt.Sprintf("j%d", w)))
		must(err)
		h.f = f
	}
	h.buf = append(h.buf[:0], model...)
	h.buf = append(h.buf, '\n')
	h.buf = append(h.buf, sut...)
	h.buf = append(h.buf, '\n')
	h.off = 0
}

func (h *heart) add(raw string) {
	h.buf = append(h.buf, raw...)
	h.buf = append(h.buf, '\n')
}

func (h *heart) flush() {
	if h.f != nil {
		n := len(h.buf)
		_, err := h.f.WriteAt(append(h.buf, 0), h.off)
		must(err)
		h.off += int64(n)
		h.buf = h.buf[:0]
	}
	h.at.Store(time.Now().UnixNano())
}

type Explorer struct {
	g      *Graph
	model  string
	sut    string
	mk     func() SUT
	nodes  []node
	seen   map[int]map[FP]bool
	maxN   int
	width  int
	seed   int64
	hearts []*heart
	jdir   string
	viol   atomic.Pointer[Replay]
	stats  Stats
	opc    map[string]*int64
	shapes map[string]string // (state, shape) -> a history leading to it
	smu    sync.Mutex
}

func (x *Explorer) path(n int) (ops []Op) {
	for i := n; i > 0; i = int(x.nodes[i].parent) {
		ops = append(ops, x.nodes[i].op)
	}
	for i, j := 0, len(ops)-1; i < j; i, j = i+1, j-1 {
		ops[i], ops[j] = ops[j], ops[i]
	}
	return ops
}

// annotate recomputes what the spec allows along a path
func (x *Explorer) annotate(ops []Op, got string) (steps []Step, ok bool) {
	s, e := safeNew(x.mk)
	if e != "" {
		return []Step{mkStep(`["new"]`, []string{rOK}, e)}, true
	}
	cur := x.g.Init[0]
	for _, op := range ops {
		res := run(s, op)
		if op.Name == "OBS" {
			steps = append(steps, mkStep(op.Raw, []string{x.g.Obs[cur]}, res))
			if res != x.g.Obs[cur] {
				return steps, true
			}
			continue
		}
		var grp *Group
		for i := range x.g.Groups[cur] {
			if x.g.Groups[cur][i].Op.Raw == op.Raw {
				grp = &x.g.Groups[cur][i]
			}
		}
		if grp == nil {
			return nil, false
		}
		steps = append(steps, mkStep(op.Raw, grp.wants(), res))
		o := grp.match(res)
		if o == nil {
			return steps, true
		}
		cur = o.To
	}
	return steps, false
}

func (x *Explorer) report(ops []Op, why string) {
	// shorten: drop operations while the run still ends in a disagreement
	best := append([]Op{}, ops...)
	if steps, bad := x.annotate(best, ""); bad {
		best = best[:len(steps)]
		if len(best) > 3 {
			deadline := time.Now().Add(5 * time.Second)
			for sz := len(best) / 2; sz >= 1 && time.Now().Before(deadline); {
				cut := false
				for i := 0; i+sz <= len(best) && time.Now().Before(deadline); {
					try := append(append([]Op{}, best[:i]...), best[i+sz:]...)
					if st, bad := x.annotate(try, ""); bad {
						best = try[:len(st)]
						cut = true
					} else {
						i++
					}
				}
				if !cut {
					sz /= 2
				}
			}
		}
	}
	steps, bad := x.annotate(best, "")
	if !bad {
		steps, bad = x.annotate(ops, "")
		if !bad {
			why += " (did not recur)"
		}
	}
	r := &Replay{Kind: "steps", Model: x.model, Sut: x.sut, What: why, Steps: steps}
	x.viol.CompareAndSwap(nil, r)
}

// journal notes the calls about to be made, so that a call that kills the
// process or never returns can be named and confirmed afterwards.
func (x *Explorer) journal(w int, ops []Op, last Op) {
	h := x.hearts[w]
	h.begin(x.jdir, w, x.model, x.sut)
	for _, o := range ops {
		h.add(o.Raw)
	}
	if last.Raw != "" {
		h.add(last.Raw)
	}
	h.flush()
}

type cand struct {
	node
	parentPos int
}

func (x *Explorer) count(name string) { atomic.AddInt64(x.opc[name], 1) }

func (x *Explorer) visited(s int, fp FP) bool { return x.seen[s][fp] }

func (x *Explorer) mark(s int, fp FP) {
	m := x.seen[s]
	if m == nil {
		m = map[FP]bool{}
		x.seen[s] = m
	}
	m[fp] = true
}

func (x *Explorer) rebuild(ops []Op) SUT {
	s, e := safeNew(x.mk)
	if e != "" {
		return nil
	}
	for _, op := range ops {
		run(s, op)
	}
	return s
}

func (x *Explorer) shape(s SUT, state int, ops []Op, last Op) {
	if x.shapes == nil {
		return
	}
	sh, ok := s.(Shaper)
	if !ok {
		return
	}
	l := `"s":` + x.g.Raw[state] + `,"h":` + sh.Shape()
	x.smu.Lock()
	defer x.smu.Unlock()
	if _, ok := x.shapes[l]; ok {
		return
	}
	var hist []string
	for _, o := range ops {
		hist = append(hist, o.Raw)
	}
	if last.Raw != "" {
		hist = append(hist, last.Raw)
	}
	x.shapes[l] = jList(hist...)
}

// observe checks the observation of a system in a state; it returns false on
// disagreement.
func (x *Explorer) observe(s SUT, state int) bool {
	x.count("OBS")
	atomic.AddInt64(&x.stats.Obs, 1)
	return safeObs(s) == x.g.Obs[state]
}

func (x *Explorer) expand(w int, n int, pos int) (out []cand) {
	nd := x.nodes[n]
	ops := x.path(n)
	var s SUT
	groups := x.g.Groups[nd.state]
	for gi := range groups {
		if x.viol.Load() != nil {
			return nil
		}
		grp := &groups[gi]
		x.journal(w, ops, grp.Op)
		if s == nil {
			s = x.rebuild(ops)
		}
		x.count(grp.Op.Name)
		atomic.AddInt64(&x.stats.Calls, 1)
		res := safeDo(s, grp.Op)
		o := grp.match(res)
		if o == nil {
			x.report(append(append([]Op{}, ops...), grp.Op), "result of "+grp.Op.Raw)
			return nil
		}
		fp := Fingerprint(s.Roots()...)
		if fp == nd.fp && o.To == nd.state {
			continue
		}
		if !x.visited(o.To, fp) {
			if !x.observe(s, o.To) {
				x.report(append(append([]Op{}, ops...), grp.Op, obsOp), "observation after "+grp.Op.Raw)
				return nil
			}
			x.shape(s, o.To, ops, grp.Op)
			out = append(out, cand{node{o.To, fp, int32(n), grp.Op}, pos})
			// an observation that changes the structure is a step of its own
			if fp2 := Fingerprint(s.Roots()...); fp2 != fp {
				out = append(out, cand{node{o.To, fp2, -1, obsOp}, pos})
			}
		}
		s = nil
	}
	x.hearts[w].at.Store(0)
	return out
}

func (x *Explorer) Explore(workers int) {
	rng := rand.New(rand.NewSource(x.seed))
	x.seen = map[int]map[FP]bool{}
	x.journal(0, nil, Op{})
	s, e := safeNew(x.mk)
	if e != "" {
		x.viol.CompareAndSwap(nil, &Replay{Kind: "steps", Model: x.model, Sut: x.sut, What: "constructor",
			Steps: []Step{mkStep(`["new"]`, []string{rOK}, e)}})
		return
	}
	init := x.g.Init[0]
	fp := Fingerprint(s.Roots()...)
	x.nodes = []node{{state: init, fp: fp, parent: -1}}
	x.mark(init, fp)
	if !x.observe(s, init) {
		x.report([]Op{obsOp}, "observation of the initial state")
		return
	}
	x.shape(s, init, nil, Op{})
	frontier := []int{0}
	x.stats.Closed = true
	for len(frontier) > 0 && x.viol.Load() == nil {
		if len(x.nodes) >= x.maxN {
			x.stats.Closed = false
			break
		}
		if x.width > 0 && len(frontier) > x.width {
			rng.Shuffle(len(frontier), func(i, j int) { frontier[i], frontier[j] = frontier[j], frontier[i] })
			frontier = frontier[:x.width]
			x.stats.Closed = false
		}
		outs := make([][]cand, len(frontier))
		var next int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for {
					i := int(atomic.AddInt64(&next, 1))
					if i >= len(frontier) || x.viol.Load() != nil {
						x.hearts[w].at.Store(0)
						return
					}
					outs[i] = x.expand(w, frontier[i], i)
				}
			}(w)
		}
		wg.Wait()
		var nf []int
		last := -1
		for _, cs := range outs {
			for _, c := range cs {
				if c.op.Name == "OBS" {
					if last < 0 || x.visited(c.state, c.fp) {
						continue
					}
					c.parent = int32(last)
				} else {
					last = -1
					if x.visited(c.state, c.fp) {
						continue
					}
				}
				x.mark(c.state, c.fp)
				x.nodes = append(x.nodes, c.node)
				last = len(x.nodes) - 1
				nf = append(nf, last)
			}
		}
		frontier = nf
		x.stats.Depth++
	}
	x.stats.Nodes = len(x.nodes)
	x.stats.SpecStates = len(x.seen)
	for _, op := range x.path(len(x.nodes) - 1) {
		x.stats.Sample = append(x.stats.Sample, json.RawMessage(op.Raw))
	}
}

func (x *Explorer) walk(w int, rng *rand.Rand, length int) {
	s, e := safeNew(x.mk)
	if e != "" {
		return
	}
	cur := x.g.Init[0]
	var ops []Op
	h := x.hearts[w]
	h.begin(x.jdir, w, x.model, x.sut)
	for i := 0; i < length; i++ {
		if x.viol.Load() != nil {
			return
		}
		groups := x.g.Groups[cur]
		if len(groups) == 0 {
			return
		}
		grp := &groups[rng.Intn(len(groups))]
		if rng.Intn(3) > 0 { // choose by operation name first
			name := x.g.names[rng.Intn(len(x.g.names))]
			var cs []int
			for j := range groups {
				if groups[j].Op.Name == name {
					cs = append(cs, j)
				}
			}
			if len(cs) > 0 {
				grp = &groups[cs[rng.Intn(len(cs))]]
			}
		}
		ops = append(ops, grp.Op)
		h.add(grp.Op.Raw)
		h.flush()
		x.count(grp.Op.Name)
		atomic.AddInt64(&x.stats.WalkSteps, 1)
		res := safeDo(s, grp.Op)
		o := grp.match(res)
		if o == nil {
			x.report(ops, "result of "+grp.Op.Raw+" on a random walk")
			return
		}
		cur = o.To
		if rng.Intn(2) == 0 {
			ops = append(ops, obsOp)
			h.add(obsRaw)
			h.flush()
			if !x.observe(s, cur) {
				x.report(ops, "observation on a random walk")
				return
			}
		}
	}
}

func (x *Explorer) Walks(workers, walks, length int, secs float64) {
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1)
				if int(i) >= walks || x.viol.Load() != nil || time.Now().After(deadline) {
					x.hearts[w].at.Store(0)
					return
				}
				x.walk(w, rand.New(rand.NewSource(x.seed*1000003+i)), length)
				atomic.AddInt64(&x.stats.Walks, 1)
			}
		}(w)
	}
	wg.Wait()
}
