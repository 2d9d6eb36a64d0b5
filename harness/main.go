package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
)

// exit codes understood by the runner
const (
	exitOK    = 0
	exitViol  = 10 // disagreement, replay written
	exitHang  = 11 // a call did not return, journal written
	hangAfter = 25 * time.Second
)

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	must(os.WriteFile(path, b, 0644))
}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vdrv graph|cases|record|replay|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "graph":
		cmdGraph(os.Args[2:])
	case "record":
		cmdRecord(os.Args[2:])
	case "conc":
		cmdConc(os.Args[2:])
	case "yieldgen":
		cmdYieldgen(os.Args[2:])
	case "replay":
		cmdReplay(os.Args[2:])
	case "list":
		var ms []string
		for m := range factories {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			for _, n := range pick(m, "*") {
				fmt.Println(m, n)
			}
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(2)
	}
}

func cmdGraph(args []string) {
	fs := flag.NewFlagSet("graph", flag.ExitOnError)
	gfile := fs.String("graph", "", "transition graph written by TLC")
	model := fs.String("model", "", "model name")
	suts := fs.String("suts", "*", "systems under test")
	seed := fs.Int64("seed", 1, "")
	nodes := fs.Int("nodes", 20000, "product nodes per system")
	width := fs.Int("width", 0, "frontier limit")
	walks := fs.Int("walks", 0, "random walks per system")
	wlen := fs.Int("walklen", 200, "")
	wsecs := fs.Float64("walksecs", 5, "")
	out := fs.String("out", "", "statistics")
	viol := fs.String("viol", "", "replay file to write on disagreement")
	jdir := fs.String("journal", "", "journal directory")
	shapes := fs.String("shapes", "", "write distinct (state, shape) pairs")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	must(fs.Parse(args))
	g := LoadGraph(*gfile)
	type res struct {
		States int     `json:"spec_states"`
		Edges  int     `json:"spec_edges"`
		Suts   []Stats `json:"suts"`
		Shapes int     `json:"shapes"`
	}
	r := res{States: len(g.Raw), Edges: g.Edges}
	all := map[string]bool{}
	for _, name := range pick(*model, *suts) {
		x := &Explorer{g: g, model: *model, sut: name, mk: factories[*model][name], maxN: *nodes, width: *width,
			seed: *seed, jdir: *jdir, opc: map[string]*int64{"OBS": new(int64)}}
		if *shapes != "" {
			x.shapes = map[string]string{}
		}
		for _, n := range g.names {
			x.opc[n] = new(int64)
		}
		for w := 0; w < *workers; w++ {
			x.hearts = append(x.hearts, &heart{})
		}
		stop := make(chan bool)
		go watch(x.hearts, stop)
		x.Explore(*workers)
		if x.viol.Load() == nil && *walks > 0 {
			x.Walks(*workers, *walks, *wlen, *wsecs)
		}
		close(stop)
		x.stats.Sut = name
		x.stats.OpCounts = map[string]int64{}
		for n, c := range x.opc {
			x.stats.OpCounts[n] = *c
		}
		r.Suts = append(r.Suts, x.stats)
		for l, h := range x.shapes {
			all["{"+l+`,"sut":`+jStr(name)+`,"ops":`+h+"}"] = true
		}
		if v := x.viol.Load(); v != nil {
			writeJSON(*viol, v)
			writeJSON(*out, r)
			os.Exit(exitViol)
		}
	}
	if *shapes != "" {
		var ls []string
		for l := range all {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		r.Shapes = len(ls)
		f, err := os.Create(*shapes)
		must(err)
		for _, l := range ls {
			fmt.Fprintln(f, l)
		}
		must(f.Close())
	}
	writeJSON(*out, r)
}

// watch stops the process when one call runs for too long; the journal of the
// worker names the call.
func watch(hs []*heart, stop chan bool) {
	for {
		select {
		case <-stop:
			return
		case <-time.After(time.Second):
		}
		for i, h := range hs {
			at := h.at.Load()
			if at != 0 && time.Since(time.Unix(0, at)) > hangAfter {
				fmt.Fprintf(os.Stderr, "HANG worker=%d\n", i)
				os.Exit(exitHang)
			}
		}
	}
}

// cmdReplay executes a replay file again. Exit 1 when the disagreement recurs,
// 0 when the system now agrees.
func cmdReplay(args []string) {
	b, err := os.ReadFile(args[0])
	must(err)
	var r Replay
	must(json.Unmarshal(b, &r))
	switch r.Kind {
	case "steps":
		replaySteps(&r)
	default:
		fmt.Fprintln(os.Stderr, "unknown replay kind", r.Kind)
		os.Exit(2)
	}
}

func replaySteps(r *Replay) {
	mk := factories[r.Model][r.Sut]
	if mk == nil {
		fmt.Fprintln(os.Stderr, "unknown sut", r.Model, r.Sut)
		os.Exit(2)
	}
	fmt.Printf("%s on %s/%s\n", r.What, r.Model, r.Sut)
	s, e := safeNew(mk)
	if e != "" {
		fmt.Println("  new ->", e)
		os.Exit(1)
	}
	for i, st := range r.Steps {
		op := parseOp(compact(st.Op))
		fmt.Printf("  %d %s\n", i+1, op.Raw)
		got := run(s, op)
		fmt.Printf("      -> %s\n", got)
		if st.Reject {
			if got == compact(st.Got) {
				fmt.Println("      the specification does not allow this result")
				os.Exit(1)
			}
			continue
		}
		if len(st.Want) == 0 {
			continue
		}
		ok := false
		for _, w := range st.Want {
			c := compact(w)
			ok = ok || c == got || c == `["any"]` || got == anyResult
		}
		if !ok {
			for _, w := range st.Want {
				fmt.Printf("      the specification allows %s\n", compact(w))
			}
			os.Exit(1)
		}
	}
	fmt.Println("agrees with the specification")
}
