package main

import (
	"fmt"
	"sort"
	"strings"
)

// SUT is one system under test: a real data structure behind the vocabulary of
// its specification.
type SUT interface {
	Do(op Op) string      // executes the operation, result as canonical JSON
	Obs() string          // full observation as canonical JSON
	Roots() []interface{} // the real objects, for the fingerprint
}

// Shaper is implemented by systems whose structure is judged by a spec.
type Shaper interface{ Shape() string }

// Concurrent is implemented by systems that can be read while operations run.
type Concurrent interface {
	Concurrently(ops func(), readers int) (reads [][2]string)
}

// factories: model -> sut name -> constructor
var factories = map[string]map[string]func() SUT{}

func register(model, name string, f func() SUT) {
	if factories[model] == nil {
		factories[model] = map[string]func() SUT{}
	}
	if factories[model][name] != nil {
		panic("duplicate sut " + model + "/" + name)
	}
	factories[model][name] = f
}

// pick returns the constructors matching a comma separated list of names or
// prefixes ending in '*'.
func pick(model, pat string) (names []string) {
	for n := range factories[model] {
		for _, p := range strings.Split(pat, ",") {
			if p == n || strings.HasSuffix(p, "*") && strings.HasPrefix(n, p[:len(p)-1]) {
				names = append(names, n)
				break
			}
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		panic("no sut matches " + model + "/" + pat)
	}
	return names
}

func safeNew(f func() SUT) (s SUT, err string) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Sprintf(`["panic",%s]`, jStr(firstLine(fmt.Sprint(e))))
		}
	}()
	return f(), ""
}

func safeDo(s SUT, op Op) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprintf(`["panic",%s]`, jStr(firstLine(fmt.Sprint(e))))
		}
	}()
	return s.Do(op)
}

func safeObs(s SUT) (res string) {
	defer func() {
		if e := recover(); e != nil {
			res = fmt.Sprintf(`["panic",%s]`, jStr(firstLine(fmt.Sprint(e))))
		}
	}()
	return s.Obs()
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

const obsRaw = `["OBS"]`

var obsOp = Op{Raw: obsRaw, Name: "OBS"}

// run executes an operation or an observation
func run(s SUT, op Op) string {
	if op.Name == "OBS" {
		return safeObs(s)
	}
	if op.Name == "SHAPE" {
		return `["ok",` + s.(Shaper).Shape() + "]"
	}
	return safeDo(s, op)
}
