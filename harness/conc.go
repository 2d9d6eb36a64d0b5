package main

import (
	"bufio"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A concurrent scenario runs goroutines against the real code and writes what
// they saw. It returns the events of the run, the first being "new".
type scenario func(rng *rand.Rand, quiet bool) []string

var scenarios = map[string]map[string]scenario{}

func addScenario(model, name string, s scenario) {
	if scenarios[model] == nil {
		scenarios[model] = map[string]scenario{}
	}
	scenarios[model][name] = s
}

const exitDeadlock = 12

// progress counts the events of concurrent runs, for the watchdog
var progress atomic.Int64

// events is a log in which the order of the lines is an order in which the
// events can have happened: calls are logged before they are made, returns
// after they are made. A quiet log keeps nothing and synchronizes nobody.
type events struct {
	mu    sync.Mutex
	lines []string
	quiet bool
}

func (l *events) add(format string, args ...interface{}) {
	if l.quiet {
		return
	}
	l.mu.Lock()
	l.lines = append(l.lines, fmt.Sprintf(`{"e":`+format+`}`, args...))
	l.mu.Unlock()
	progress.Add(1)
}

// blocked reports whether every other goroutine waits for another goroutine,
// in which case none of them ever runs again.
func blocked() (bool, string) {
	n, s := waiting("main.watchConc(")
	return n > 0 && !strings.Contains(s, "main.settle("), s
}

// waiting counts the goroutines, -1 if one of them can go on.
func waiting(except string) (int, string) {
	buf := make([]byte, 1<<20)
	s := string(buf[:runtime.Stack(buf, true)])
	n := 0
	for i, g := range strings.Split(s, "\n\n") {
		a, b := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
		if a < 0 || b < a {
			return -1, s
		}
		state := strings.Split(g[a+1:b], ",")[0]
		if i == 0 || strings.Contains(g, except) { // this one, the watchdog
			continue
		}
		switch {
		// not "semacquire": that is also how a goroutine waits for the
		// stopped world
		case strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"), strings.HasPrefix(state, "sync."):
			n++
		default:
			return -1, s
		}
	}
	return n, s
}

// settle waits until every goroutine but the caller waits for another one. It
// reports whether that happened; if not nothing follows.
func settle() bool {
	for t0 := time.Now(); time.Since(t0) < 5*time.Second; {
		if n, _ := waiting("main.watchConc("); n >= 0 {
			return true
		}
		time.Sleep(100 * time.Microsecond)
	}
	return false
}

func watchConc(stop chan bool) {
	last, since := int64(-1), time.Now()
	for {
		select {
		case <-stop:
			return
		default:
		}
		time.Sleep(50 * time.Millisecond)
		if p := progress.Load(); p != last {
			last, since = p, time.Now()
			continue
		}
		if time.Since(since) > time.Second {
			if b, s := blocked(); b {
				fmt.Fprintf(os.Stderr, "DEADLOCK: every goroutine waits for another\n%s\n", s)
				os.Exit(exitDeadlock)
			}
		}
		if time.Since(since) > 4*hangAfter {
			_, s := blocked()
			fmt.Fprintf(os.Stderr, "HANG\n%s\n", s)
			os.Exit(exitHang)
		}
	}
}

// cmdConc runs scenarios and writes their events.
func cmdConc(args []string) {
	fs := flag.NewFlagSet("conc", flag.ExitOnError)
	model := fs.String("model", "", "")
	names := fs.String("suts", "", "comma separated scenarios")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "runs")
	secs := fs.Float64("secs", 60, "")
	quiet := fs.Bool("quiet", false, "keep no log")
	out := fs.String("out", "", "")
	must(fs.Parse(args))
	f, err := os.Create(*out)
	must(err)
	w := bufio.NewWriterSize(f, 1<<20)
	stop := make(chan bool)
	go watchConc(stop)
	t0 := time.Now()
	list := strings.Split(*names, ",")
	runs := 0
	for i := 0; i < *n && time.Since(t0).Seconds() < *secs; i++ {
		name := list[i%len(list)]
		s := scenarios[*model][name]
		if s == nil {
			fmt.Fprintln(os.Stderr, "unknown scenario", *model, name)
			os.Exit(2)
		}
		yieldPlan(*seed*100003 + int64(i))
		for _, l := range s(rand.New(rand.NewSource(*seed*7919+int64(i))), *quiet) {
			w.WriteString(l)
			w.WriteByte('\n')
		}
		progress.Add(1)
		runs++
	}
	stop <- true
	must(w.Flush())
	must(f.Close())
	fmt.Println("RUNS", runs)
}

// nap spends a little time, or none
func nap(rng *rand.Rand, most int) {
	switch rng.Intn(4) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(rng.Intn(most)+1) * time.Microsecond)
	case 2:
		for i := rng.Intn(2000); i > 0; i-- {
			runtime.KeepAlive(i)
		}
	}
}
