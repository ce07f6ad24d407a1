// C45: assertions stop a test exactly when they do not hold, and point at it.
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"testing"

	"github.com/wujiu2020/strip"
	"stripverif/h"
)

type typed struct{}

func (*typed) Error() string { return "typed" }

type code int

func (c code) Error() string { return fmt.Sprint("code ", int(c)) }

type face interface{ Error() string }

// assertion calls one of the assertions with a value; holds tells whether it should hold.
type assertion struct {
	name  string
	call  func(*strip.Assert)
	holds bool
}

func pick(c *rand.Rand) assertion {
	var e error
	var f face
	var te *typed
	errs := []error{nil, e, f, errors.New("bad"), fmt.Errorf("%%w: %w", io.EOF), &typed{}, (*typed)(nil), code(0), code(3), errors.New("")}
	nils := []any{nil, (*int)(nil), (*typed)(nil), te, map[string]int(nil), []int(nil), []byte(nil), (chan int)(nil), (<-chan int)(nil), (func())(nil), error(nil), face(nil), (**int)(nil), (*error)(nil)}
	x := 0
	px := (*int)(nil)
	things := []any{0, "", false, 0.0, struct{}{}, [0]int{}, [2]*int{}, &x, &px, map[string]int{}, []int{}, make(chan int), func() {}, errors.New("x"), &typed{}, "nil", uint8(0), complex(0, 0), new(error), uintptr(0), fmt.Stringer(nil) == nil, struct{ P *int }{}}
	switch c.IntN(8) {
	case 0, 1:
		k := c.IntN(len(errs))
		return assertion{fmt.Sprintf("NoError(%v)", errs[k]), func(a *strip.Assert) { a.NoError(errs[k]) }, k < 3}
	case 2:
		k := c.IntN(len(nils))
		return assertion{fmt.Sprintf("Nil(%T nil)", nils[k]), func(a *strip.Assert) { a.Nil(nils[k]) }, true}
	case 3:
		k := c.IntN(len(nils))
		return assertion{fmt.Sprintf("NotNil(%T nil)", nils[k]), func(a *strip.Assert) { a.NotNil(nils[k]) }, false}
	case 4:
		k := c.IntN(len(things))
		return assertion{fmt.Sprintf("Nil(%d %T)", k, things[k]), func(a *strip.Assert) { a.Nil(things[k]) }, false}
	case 5:
		k := c.IntN(len(things))
		return assertion{fmt.Sprintf("NotNil(%d %T)", k, things[k]), func(a *strip.Assert) { a.NotNil(things[k]) }, true}
	}
	b := c.IntN(2) == 0
	if c.IntN(2) == 0 {
		return assertion{fmt.Sprintf("True(%v)", b), func(a *strip.Assert) { a.True(b) }, b}
	}
	return assertion{fmt.Sprintf("False(%v)", b), func(a *strip.Assert) { a.False(b) }, !b}
}

// outcome is what a test did.
type outcome struct {
	Reached int
	Failed  bool
	Cleaned bool
	Where   int
	File    string
}

const perProcess = 40

func plans(seed uint64) (ps [][]assertion) {
	r := rand.New(rand.NewPCG(seed, 45))
	for range perProcess {
		var as []assertion
		for n := r.IntN(6); n >= 0; n-- {
			a := pick(r)
			if !a.holds && r.IntN(4) > 0 {
				a = pick(r)
			}
			as = append(as, a)
		}
		ps = append(ps, as)
	}
	return
}

// tests runs the assertions of the seed in real tests and never returns.
func tests(seed uint64, file string) {
	outcomes := make([]outcome, perProcess)
	var its []testing.InternalTest
	for i, as := range plans(seed) {
		o := &outcomes[i]
		its = append(its, testing.InternalTest{Name: fmt.Sprintf("T%d", i), F: func(t *testing.T) {
			defer func() { o.Failed = t.Failed() }()
			t.Cleanup(func() { o.Cleaned = true })
			a := &strip.Assert{T: t}
			for k, x := range as {
				o.Reached = k
				switch {
				case strings.HasPrefix(x.name, "True"):
					_, o.File, o.Where, _ = runtime.Caller(0)
					a.True(x.holds) // the line behind
				case strings.HasPrefix(x.name, "False"):
					_, o.File, o.Where, _ = runtime.Caller(0)
					a.False(!x.holds) // the line behind
				default:
					o.Where = 0
					x.call(a)
				}
			}
			o.Reached = len(as)
		}})
	}
	its = append(its, testing.InternalTest{Name: "Outcomes", F: func(t *testing.T) {
		b, _ := json.Marshal(outcomes)
		os.WriteFile(file, b, 0o600)
	}})
	os.Args = os.Args[:1]
	testing.Main(func(pat, str string) (bool, error) { return true, nil }, its, nil, nil)
}

// sequence: tests of several assertions; a test goes on up to the first one that does not hold.
func sequence(c *h.C) {
	exe, err := os.Executable()
	if err != nil {
		c.Inconclusive("%v", err)
	}
	seed := c.Uint64()
	file := filepath.Join(c.Dir(), fmt.Sprintf("out%d", c.Index))
	defer os.Remove(file)
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), fmt.Sprint("C45_SEED=", seed), "C45_FILE="+file)
	b, runErr := cmd.Output()
	js, err := os.ReadFile(file)
	var outcomes []outcome
	if err == nil {
		err = json.Unmarshal(js, &outcomes)
	}
	if err != nil {
		c.Fatal("broken off", "the tests were broken off: %v\n%s", runErr, h.Short(string(b)))
	}
	all := true
	for i, as := range plans(seed) {
		o := &outcomes[i]
		want := len(as)
		var names []string
		for k, x := range as {
			names = append(names, x.name)
			if !x.holds {
				want = k
				break
			}
		}
		fails := want < len(as)
		all = all && !fails
		c.Eval(1)
		c.Count("tests", 1)
		c.Sig("%v", names)
		if fails {
			c.Count("failing tests", 1)
		}
		if o.Failed != fails || o.Reached != want {
			c.Fatal("verdict", "assertions %v: failed %v at assertion %d, want %v at %d", names, o.Failed, o.Reached, fails, want)
		}
		if !o.Cleaned {
			c.Fail("cleanup", "assertions %v: clean-up functions did not run", names)
		}
		text := section(string(b), fmt.Sprintf("T%d", i))
		if !fails {
			if text != "" {
				c.Fail("noise", "assertions %v hold, printed %q", names, text)
			}
			continue
		}
		if o.Where > 0 {
			pos := fmt.Sprintf("%s:%d", filepath.Base(o.File), o.Where+1)
			if !strings.Contains(text, pos) {
				c.Fail("position", "assertions %v fail at %s, printed %q", names, pos, text)
			}
			c.Count("positions", 1)
		} else if !strings.Contains(text, filepath.Base(self)+":") {
			c.Fail("position", "assertions %v: not told where in %q", names, text)
		}
	}
	if (runErr == nil) != all {
		c.Fail("overall", "the tests exit with %v, want success %v", runErr, all)
	}
}

// section is what a failing test printed.
func section(out, name string) string {
	_, s, found := strings.Cut(out, "--- FAIL: "+name+" ")
	if !found {
		return ""
	}
	s, _, _ = strings.Cut(s, "--- FAIL: ")
	return s
}

var self = func() string { _, f, _, _ := runtime.Caller(0); return f }()

func main() {
	if v := os.Getenv("C45_SEED"); v != "" {
		seed, _ := strconv.ParseUint(v, 10, 64)
		tests(seed, os.Getenv("C45_FILE"))
	}
	h.Main(h.Spec{
		ID:          "C45",
		Rule:        "tests of up to 6 random assertions (errors, nil and other values of 14 and 22 kinds, truths) run by the testing package: whether each fails, how far it gets, whether it is cleaned up, and where the output points; distinct by assertions",
		Assumptions: []string{"nil unsafe.Pointer values are not judged"},
		Min:         map[string]int64{"tests": 3000, "failing tests": 1000, "positions": 300},
		MinDistinct: 1000,
		Run: func(r *h.R) {
			r.Loop("sequence", r.N(120, 3000), sequence)
		},
	})
}
