package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"strings"

	dserrors "github.com/timtadh/data-structures/errors"
	"github.com/timtadh/data-structures/exc"
)

// ---- exception types, numbered as in Exc.tla ----

type excA struct{ exc.Exception }
type excB struct {
	excA
	note string
}
type excC struct {
	code int
	exc.Exception
}

// excD and excV implement the interface themselves
type excD struct{ errs []*exc.Error }

func (e *excD) Exc() *exc.Exception                { return &exc.Exception{Errors: e.errs} }
func (e *excD) Error() string                      { return e.Exc().Error() }
func (e *excD) Chain(err *exc.Error) exc.Throwable { e.errs = append(e.errs, err); return e }

type excV struct{ errs []*exc.Error }

func (e excV) Exc() *exc.Exception { return &exc.Exception{Errors: e.errs} }
func (e excV) Error() string       { return e.Exc().Error() }
func (e excV) Chain(err *exc.Error) exc.Throwable {
	return excV{append(append([]*exc.Error{}, e.errs...), err)}
}

func excProto(t int) exc.Throwable {
	switch t {
	case 1:
		return &exc.Exception{}
	case 2:
		return &excA{}
	case 3:
		return &excB{}
	case 4:
		return &excC{}
	case 5:
		return &excD{}
	case 6:
		return excV{}
	}
	panic("no such exception type")
}

func excType(e exc.Throwable) int {
	switch e.(type) {
	case *exc.Exception:
		return 1
	case *excA:
		return 2
	case *excB:
		return 3
	case *excC:
		return 4
	case *excD:
		return 5
	case excV:
		return 6
	}
	return 0
}

// an error that carries a place in the program
type placeErr struct{ path []int }

func (p *placeErr) Error() string { return "at " + jInts(p.path) }

type placePanic struct{ path []int }

func descExc(e exc.Throwable) string {
	var ls []string
	for _, x := range e.Exc().Errors {
		var p *placeErr
		switch y := x.Err.(type) {
		case *placeErr:
			p = y
		default:
			var path []int
			s := x.Err.Error()
			if !strings.HasPrefix(s, "at [") {
				return `["odd","foreign error"]`
			}
			s = strings.Trim(s[3:], "[]")
			for _, f := range strings.Split(s, ",") {
				var i int
				fmt.Sscan(f, &i)
				path = append(path, i)
			}
			p = &placeErr{path}
		}
		if !bytes.Contains(x.Stack, []byte("goroutine")) {
			return `["odd","no stack"]`
		}
		ls = append(ls, jInts(p.path))
	}
	return jList(`"exc"`, jInt(excType(e)), jList(ls...))
}

// excSUT interprets the programs of Exc.tla with real blocks
type excSUT struct {
	variant int // which of the equivalent ways of throwing and declaring is used
	log     []string
	n       int
}

func at(p []int, xs ...int) []int { return append(append([]int{}, p...), xs...) }

func (s *excSUT) say(kind string, path []int, more ...string) {
	s.log = append(s.log, jList(append([]string{jStr(kind), jInts(path)}, more...)...))
}

func (s *excSUT) pick(n int) int {
	s.n++
	return (s.n + s.variant) % n
}

func (s *excSUT) throw(t int, p []int) {
	err := &placeErr{p}
	if t == 1 {
		switch s.pick(5) {
		case 0:
			exc.Throwf("at %v", jInts(p))
		case 1:
			exc.ThrowErr(exc.FromError(err))
		case 2:
			exc.ThrowOnError(err)
		case 3:
			exc.ThrowErr(exc.Errorf("at %v", jInts(p)))
		}
		exc.Throw(exc.FromError(err).Exception())
	}
	e := exc.FromError(err)
	switch t {
	case 2:
		exc.Throw(&excA{*e.Exception()})
	case 3:
		exc.Throw(&excB{excA{*e.Exception()}, "b"})
	case 4:
		exc.Throw(&excC{4, *e.Exception()})
	case 5:
		exc.Throw(&excD{[]*exc.Error{e}})
	case 6:
		exc.Throw(excV{[]*exc.Error{e}})
	}
}

func (s *excSUT) panics(p []int) {
	switch s.pick(3) {
	case 0:
		panic(placePanic{p})
	case 1:
		panic(&placeErr{p}) // an error, but nothing that can be caught
	}
	panic(fmt.Errorf("wrapped: %w", &placeErr{p}))
}

func (s *excSUT) body(b Val, p []int, cur exc.Throwable) {
	switch b.L[0].S {
	case "ok":
		if s.pick(2) == 0 {
			exc.ThrowOnError(nil)
		}
	case "throw":
		s.throw(b.L[1].I, p)
	case "panic":
		s.panics(p)
	case "rethrow":
		if s.pick(2) == 0 {
			exc.Rethrow(cur, exc.FromError(&placeErr{p}))
		}
		exc.Rethrow(cur, exc.Errorf("at %v", jInts(p)))
	case "block":
		blk := s.block(b.L[2], p)
		switch b.L[1].S {
		case "unwind":
			blk.Unwind()
		case "error":
			s.say("got", p, s.errOut(blk.Error()))
		case "exception":
			s.say("got", p, s.excOut(blk.Exception()))
		}
	default:
		panic("unknown body " + b.L[0].S)
	}
}

func (s *excSUT) errOut(err error) string {
	if err == nil {
		return rOK
	}
	if t, ok := err.(exc.Throwable); ok {
		return descExc(t)
	}
	return `["odd","error of another kind"]`
}

func (s *excSUT) excOut(t exc.Throwable) string {
	if t == nil {
		return rOK
	}
	return descExc(t)
}

type resource struct {
	s    *excSUT
	path []int
	do   Val
}

func (r *resource) Close() error {
	r.s.say("close", r.path)
	switch r.do.L[0].S {
	case "err":
		return &placeErr{r.path}
	case "throw":
		r.s.throw(r.do.L[1].I, r.path)
	case "panic":
		r.s.panics(r.path)
	}
	return nil
}

func (s *excSUT) block(b Val, p []int) *exc.Block {
	var blk *exc.Block
	n := len(b.L)
	if b.L[0].S == "try" {
		blk = exc.Try(func() {
			q := at(p, 1)
			s.say("try", q)
			s.body(b.L[1], q, nil)
		})
	} else {
		var made *resource
		blk = exc.Close(func() io.Closer {
			q := at(p, 4)
			s.say("make", q)
			switch b.L[1].L[0].S {
			case "throw":
				s.throw(b.L[1].L[1].I, q)
			case "panic":
				s.panics(q)
			}
			made = &resource{s, at(p, 5), b.L[3]}
			return made
		}, func(c io.Closer) {
			q := at(p, 1)
			if c != io.Closer(made) {
				s.say("another resource", q)
			}
			s.say("body", q)
			s.body(b.L[2], q, nil)
		})
	}
	cs, fs := b.L[n-2].L, b.L[n-1].L
	// catches and finals may be declared in any order relative to each other
	ci, fi := 0, 0
	for ci < len(cs) || fi < len(fs) {
		if ci < len(cs) && (fi == len(fs) || s.pick(2) == 0) {
			i := ci
			ci++
			blk = blk.Catch(excProto(cs[i].L[0].I), func(t exc.Throwable) {
				q := at(p, 2, i+1)
				s.say("catch", q, descExc(t))
				s.body(cs[i].L[1], q, t)
			})
		} else {
			i := fi
			fi++
			blk = blk.Finally(func() {
				q := at(p, 3, i+1)
				s.say("finally", q)
				s.body(fs[i], q, nil)
			})
		}
	}
	return blk
}

// pathPanic describes an ordinary panic
func pathPanic(e interface{}) string {
	switch x := e.(type) {
	case placePanic:
		return jList(`"panic"`, jInts(x.path))
	case error:
		var p *placeErr
		if errors.As(x, &p) {
			return jList(`"panic"`, jInts(p.path))
		}
	}
	return `["odd","` + fmt.Sprintf("%T", e) + `"]`
}

func (s *excSUT) Do(op Op) string {
	if op.Name != "run" {
		panic("unknown operation " + op.Raw)
	}
	how, n, b := op.A[0].S, op.A[1].I, op.A[2]
	s.n = 0
	var path []int
	s.log = nil
	// one block, run n times: its place is the number of the run
	path = []int{0}
	blk := s.block(b, path)
	if len(s.log) != 0 {
		return `["odd","something ran before the block was executed"]`
	}
	var rs []string
	for k := 1; k <= n; k++ {
		path[0] = k
		s.log = nil
		out := s.execute(how, blk)
		rs = append(rs, jList(jList(s.log...), out))
	}
	return jList(`"ok"`, jList(rs...))
}

func (s *excSUT) execute(how string, blk *exc.Block) (out string) {
	defer func() {
		if e := recover(); e != nil {
			if t, ok := e.(exc.Throwable); ok {
				if how != "unwind" {
					out = `["odd","an exception escapes as a panic"]`
					return
				}
				out = descExc(t)
				return
			}
			out = pathPanic(e)
		}
	}()
	switch how {
	case "error":
		return s.errOut(blk.Error())
	case "exception":
		return s.excOut(blk.Exception())
	}
	blk.Unwind()
	return rOK
}

func (s *excSUT) Obs() string          { return rOK }
func (s *excSUT) Roots() []interface{} { return nil }

// ---- chains of causes, as in ErrChain.tla ----

//go:noinline
func makeCause1(kind int) error { return causeOf(kind, 1) }

//go:noinline
func makeCause2(kind int) error { return causeOf(kind, 2) }

//go:noinline
func makeCause3(kind int) error { return causeOf(kind, 3) }

func causeOf(kind, c int) error {
	switch kind {
	case 1:
		return dserrors.Errorf("cause<%d>", c)
	case 2:
		return exc.Errorf("cause<%d>", c)
	}
	return fmt.Errorf("cause<%d>", c)
}

func cause(kind, c int) error {
	switch c {
	case 1:
		return makeCause1(kind)
	case 2:
		return makeCause2(kind)
	}
	return makeCause3(kind)
}

// createdIn is the function that creates the errors of cause c
//
//go:noinline
func createdIn1(deep int, f func() *exc.Error) *exc.Error {
	if deep > 0 {
		return createdIn1(deep-1, f)
	}
	return f()
}

//go:noinline
func createdIn2(deep int, f func() *exc.Error) *exc.Error {
	if deep > 0 {
		return createdIn2(deep-1, f)
	}
	return f()
}

type chainSUT struct {
	kind string
	deep int
	errK int
	es   []*dserrors.Error
	made []bool // created by Errorf
	xs   []exc.Throwable
}

func (s *chainSUT) newExc(es ...*exc.Error) exc.Throwable {
	switch s.kind {
	case "sub":
		return &excA{exc.Exception{Errors: es}}
	case "subsub":
		return &excB{excA{exc.Exception{Errors: es}}, ""}
	case "late":
		return &excC{0, exc.Exception{Errors: es}}
	}
	return &exc.Exception{Errors: es}
}

// mkErr creates an error of cause c in a function named after it
func (s *chainSUT) mkErr(c int) *exc.Error {
	from := cause(s.errK, c)
	mk := func() *exc.Error {
		if s.errK == 3 {
			return exc.Errorf("cause<%d>", c)
		}
		e := exc.FromError(from)
		if e.Err != from {
			panic("FromError made of something else")
		}
		return e
	}
	if c%2 == 1 {
		return createdIn1(s.deep, mk)
	}
	return createdIn2(s.deep, mk)
}

func (s *chainSUT) Do(op Op) string {
	i := op.A[0].I - 1
	if s.kind == "errors" {
		switch op.Name {
		case "make":
			s.es[i] = dsErr(s.deep, op.A[1].I)
			s.made[i] = true
			return rOK
		case "chain", "rethrow":
			if r := s.es[i].Chain(cause(s.errK, op.A[1].I)); r != error(s.es[i]) {
				return `["odd","Chain returned something else"]`
			}
			return rOK
		case "chainof":
			j := s.es[op.A[1].I-1].Errs
			if r := s.es[i].Chain(j[len(j)-1]); r != error(s.es[i]) {
				return `["odd","Chain returned something else"]`
			}
			return rOK
		case "drop":
			s.es[i] = &dserrors.Error{}
			s.made[i] = false
			return rOK
		case "join": // there is no Join: a new error with the causes of both
			e := &dserrors.Error{}
			for _, c := range append(append([]error{}, s.es[i].Errs...), s.es[op.A[1].I-1].Errs...) {
				e.Chain(c)
			}
			s.es[op.A[2].I-1] = e
			s.made[op.A[2].I-1] = false
			return rOK
		}
		panic("unknown operation " + op.Raw)
	}
	switch op.Name {
	case "make":
		s.xs[i] = s.newExc(s.mkErr(op.A[1].I).Exception().Errors...)
	case "chain":
		t := s.xs[i].Chain(s.mkErr(op.A[1].I))
		if t.Exc() != s.xs[i].Exc() {
			return `["odd","Chain returned something else"]`
		}
	case "chainof":
		j := s.xs[op.A[1].I-1].Exc().Errors
		if t := s.xs[i].Chain(j[len(j)-1]); t.Exc() != s.xs[i].Exc() {
			return `["odd","Chain returned something else"]`
		}
	case "rethrow":
		x := s.xs[i]
		var out exc.Throwable
		out = exc.Try(func() { exc.Throw(x) }).Catch(&exc.Exception{}, func(t exc.Throwable) {
			exc.Rethrow(t, s.mkErr(op.A[1].I))
		}).Exception()
		if fmt.Sprintf("%T", out) != fmt.Sprintf("%T", x) {
			return `["odd","the type changed"]`
		}
		s.xs[i] = out
	case "join":
		j := s.xs[i].Exc().Join(s.xs[op.A[1].I-1].Exc())
		if s.kind == "exc" {
			s.xs[op.A[2].I-1] = j
		} else {
			s.xs[op.A[2].I-1] = s.newExc(j.Errors...)
		}
	case "drop":
		s.xs[i] = s.newExc()
	default:
		panic("unknown operation " + op.Raw)
	}
	return rOK
}

// dsErr creates a package errors error in a function named after the cause
func dsErr(deep, c int) *dserrors.Error {
	var r *dserrors.Error
	mk := func() *exc.Error {
		r = dserrors.Errorf("cause<%d>", c).(*dserrors.Error)
		return nil
	}
	if c%2 == 1 {
		createdIn1(deep, mk)
	} else {
		createdIn2(deep, mk)
	}
	return r
}

// mentions lists the causes a text names, in order
func mentions(text string) (r []int) {
	r = []int{}
	for {
		i := strings.Index(text, "cause<")
		if i < 0 {
			return r
		}
		text = text[i+6:]
		var c int
		fmt.Sscanf(text, "%d>", &c)
		r = append(r, c)
	}
}

// creator is the name of the function the errors of cause c are created in
func creator(c int) []byte {
	if c%2 == 1 {
		return []byte("main.createdIn1")
	}
	return []byte("main.createdIn2")
}

func odd(why string) string { return jList(`"odd"`, jStr(why)) }

func (s *chainSUT) Obs() string {
	var out []string
	if s.kind == "errors" {
		for i, e := range s.es {
			xs := []int{}
			for _, c := range e.Errs {
				xs = append(xs, mentions(c.Error())[0])
			}
			if got := mentions(e.Error()); jInts(got) != jInts(xs) {
				return odd(fmt.Sprintf("the text names %v, the list %v", got, xs))
			}
			if s.made[i] && (!bytes.Contains(e.Stack, creator(xs[0])) || !bytes.Contains([]byte(e.Error()), creator(xs[0]))) {
				return odd("the stack does not name the creating function")
			}
			out = append(out, jInts(xs))
		}
		return jList(out...)
	}
	for _, t := range s.xs {
		xs := []int{}
		for _, e := range t.Exc().Errors {
			c := mentions(e.Err.Error())[0]
			xs = append(xs, c)
			if !bytes.Contains(e.Stack, creator(c)) || !bytes.Contains([]byte(e.Error()), creator(c)) {
				return odd("the stack does not name the creating function")
			}
			if got := mentions(e.Error()); len(got) != 1 {
				return odd("text of one error")
			}
		}
		if got := mentions(t.Error()); jInts(got) != jInts(xs) {
			return odd(fmt.Sprintf("the text names %v, the list %v", got, xs))
		}
		out = append(out, jInts(xs))
	}
	return jList(out...)
}

func (s *chainSUT) Roots() (r []interface{}) {
	for _, e := range s.es {
		r = append(r, e)
	}
	for _, e := range s.xs {
		r = append(r, e)
	}
	return r
}

func init() {
	for v := 0; v < 6; v++ {
		v := v
		register("exc", fmt.Sprintf("exc%d", v), func() SUT { return &excSUT{variant: v} })
	}
	for _, kind := range []string{"errors", "exc", "sub", "subsub", "late"} {
		for n := 1; n <= 4; n++ {
			for k := 0; k <= 3; k++ {
				for _, deep := range []int{0, 400} {
					kind, n, k, deep := kind, n, k, deep
					if deep > 0 && k != 3 {
						continue
					}
					name := fmt.Sprintf("%s%d/k%d", kind, n, k)
					if deep > 0 {
						name += "/deep"
					}
					register("chain", name, func() SUT {
						s := &chainSUT{kind: kind, errK: k, deep: deep}
						if kind == "errors" {
							for i := 0; i < n; i++ {
								s.es = append(s.es, &dserrors.Error{})
								s.made = append(s.made, false)
							}
							if k == 3 {
								s.errK = 0
							}
						} else {
							for i := 0; i < n; i++ {
								s.xs = append(s.xs, s.newExc())
							}
						}
						return s
					})
				}
			}
		}
	}
	workloads["chain"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		const slots = 3
		size := [slots + 1]int{}
		for len(ops) < n {
			i, c := 1+rng.Intn(slots), 1+rng.Intn(3)
			switch x := rng.Intn(20); {
			case x < 2:
				size[i] = 1
				ops = append(ops, mkop("make", i, c))
			case x < 9 && size[i] < k:
				size[i]++
				ops = append(ops, mkop("chain", i, c))
			case x < 13 && size[i] < k:
				size[i]++
				ops = append(ops, mkop("rethrow", i, c))
			case x < 17:
				j, t := 1+rng.Intn(slots), 1+rng.Intn(slots)
				if size[i]+size[j] <= k {
					size[t] = size[i] + size[j]
					ops = append(ops, mkop("join", i, j, t))
				}
			case x < 19:
				j := 1 + rng.Intn(slots)
				if rng.Intn(3) == 0 {
					j = i
				}
				if size[j] > 0 && size[i] < k {
					size[i]++
					ops = append(ops, mkop("chainof", i, j))
				}
			default:
				size[i] = 0
				ops = append(ops, mkop("drop", i))
			}
		}
		return ops
	}
	// random nested programs
	var body func(rng *rand.Rand, depth int, catch bool) string
	var block func(rng *rand.Rand, depth int) string
	ty := func(rng *rand.Rand) string { return jInt(1 + rng.Intn(6)) }
	body = func(rng *rand.Rand, depth int, catch bool) string {
		switch x := rng.Intn(10); {
		case x < 2:
			return `["ok"]`
		case x < 5:
			return `["throw",` + ty(rng) + `]`
		case x == 5 && rng.Intn(4) == 0:
			return `["panic"]`
		case x < 8 && catch:
			return `["rethrow"]`
		}
		if depth == 0 {
			return `["ok"]`
		}
		return jList(`"block"`, jStr([]string{"unwind", "error", "exception"}[rng.Intn(3)]), block(rng, depth-1))
	}
	block = func(rng *rand.Rand, depth int) string {
		var cs, fs []string
		for i := rng.Intn(5); i > 0; i-- {
			cs = append(cs, jList(ty(rng), body(rng, depth, true)))
		}
		for i := rng.Intn(4); i > 0; i-- {
			f := `["ok"]`
			switch rng.Intn(6) {
			case 0:
				if depth > 0 {
					f = jList(`"block"`, jStr([]string{"error", "exception"}[rng.Intn(2)]), block(rng, depth-1))
				}
			case 1:
				if rng.Intn(6) == 0 {
					f = `["panic"]`
				}
			}
			fs = append(fs, f)
		}
		if rng.Intn(3) == 0 {
			mk, cl := `["ok"]`, `["ok"]`
			switch rng.Intn(8) {
			case 0:
				mk = `["throw",` + ty(rng) + `]`
			case 1:
				cl = `["throw",` + ty(rng) + `]`
			case 2, 3:
				cl = `["err"]`
			}
			return jList(`"close"`, mk, body(rng, depth, false), cl, jList(cs...), jList(fs...))
		}
		return jList(`"try"`, body(rng, depth, false), jList(cs...), jList(fs...))
	}
	workloads["exc"] = func(rng *rand.Rand, n, k int) (ops []Op) {
		for len(ops) < n {
			how := []string{"unwind", "error", "exception"}[rng.Intn(3)]
			ops = append(ops, parseOp(jList(`"run"`, jStr(how), jInt(1+rng.Intn(2)), block(rng, rng.Intn(k+1)))))
		}
		return ops
	}
}
