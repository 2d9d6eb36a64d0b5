package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// Val is a decoded TLA+ value as it appears in operations: an integer, a
// string or a sequence.
type Val struct {
	I   int
	S   string
	L   []Val
	Seq bool
}

func toVal(x interface{}) Val {
	switch y := x.(type) {
	case json.Number:
		i, err := strconv.Atoi(y.String())
		must(err)
		return Val{I: i}
	case string:
		return Val{S: y}
	case bool:
		if y {
			return Val{I: 1, S: "true"}
		}
		return Val{I: 0, S: "false"}
	case []interface{}:
		l := make([]Val, 0, len(y))
		for _, e := range y {
			l = append(l, toVal(e))
		}
		return Val{L: l, Seq: true}
	}
	panic(fmt.Sprintf("cannot decode %T %v", x, x))
}

func (v Val) Ints() []int {
	r := make([]int, 0, len(v.L))
	for _, e := range v.L {
		r = append(r, e.I)
	}
	return r
}

func decode(raw []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var x interface{}
	err := d.Decode(&x)
	return x, err
}

// Op is one labelled transition: name and arguments, with its JSON text.
type Op struct {
	Raw  string
	Name string
	A    []Val
}

func parseOp(raw string) Op {
	x, err := decode([]byte(raw))
	must(err)
	v := toVal(x)
	return Op{Raw: raw, Name: v.L[0].S, A: v.L[1:]}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ---- canonical JSON builders; the specs emit the same compact form ----

func jInts(xs []int) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, x := range xs {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteString(strconv.Itoa(x))
	}
	b.WriteByte(']')
	return b.String()
}

func jList(xs ...string) string { return "[" + strings.Join(xs, ",") + "]" }

func jPairs(xs [][2]int) string {
	var b strings.Builder
	b.WriteByte('[')
	for i, x := range xs {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteByte('[')
		b.WriteString(strconv.Itoa(x[0]))
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(x[1]))
		b.WriteByte(']')
	}
	b.WriteByte(']')
	return b.String()
}

func jStr(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	must(e.Encode(s))
	return strings.TrimSuffix(b.String(), "\n")
}

func jInt(i int) string { return strconv.Itoa(i) }

const rOK = `["ok"]`
const rErr = `["err"]`
const rNil = `["nil"]`

func rVal(i int) string { return `["ok",` + strconv.Itoa(i) + `]` }
func rBool(b bool) string {
	if b {
		return `["true"]`
	}
	return `["false"]`
}

// rErrOr is the result of a call that reports success by a nil error; bad
// replaces the plain error result.
func rErrOr(err error, ok string, bad ...string) string {
	if err != nil {
		if len(bad) > 0 {
			return bad[0]
		}
		return rErr
	}
	return ok
}

// anyResult stands for a call this system does not offer; it matches whatever
// the spec says.
const anyResult = `["n/a"]`
