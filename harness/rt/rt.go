// Package rt generates route tables and holds the reference model of routing.
package rt

import (
	"math/rand/v2"
	"path"
	"strings"
)

// Seg is one pattern segment.
type Seg struct {
	Kind string // lit, param, wild
	Text string // literal text or parameter name
	Verb string // ":run" for custom verbs
}

func (s Seg) String() string {
	switch s.Kind {
	case "param":
		return ":" + s.Text + s.Verb
	case "wild":
		return "*:" + s.Text
	}
	return s.Text
}

// Pattern is a declared path.
type Pattern []Seg

func (p Pattern) String() string {
	if len(p) == 0 {
		return "/"
	}
	var b strings.Builder
	for _, s := range p {
		b.WriteString("/" + s.String())
	}
	return b.String()
}

// Entry is a declared route with an identity; Handler tells whether it has actions.
type Entry struct {
	ID      int
	Pat     Pattern
	Handler bool
}

// Param is a name/value pair found by matching.
type Param struct{ Name, Value string }

// Split cleans a request path into segments; none for the root.
func Split(p string) []string {
	p = path.Clean("/" + strings.TrimSpace(p))
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

// Match is the reference resolution: entries are the declared routes.
func Match(entries []Entry, segs []string) (e *Entry, params []Param) {
	return match(entries, segs, 0)
}

func match(set []Entry, segs []string, i int) (*Entry, []Param) {
	if i == len(segs) {
		for k := len(set) - 1; k >= 0; k-- {
			if len(set[k].Pat) == i {
				return &set[k], nil
			}
		}
		return nil, nil
	}
	sub := func(f func(s Seg) bool) (out []Entry) {
		for _, e := range set {
			if len(e.Pat) > i && f(e.Pat[i]) {
				out = append(out, e)
			}
		}
		return
	}
	if s := sub(func(s Seg) bool { return s.Kind == "lit" && s.Text == segs[i] }); len(s) > 0 {
		if e, ps := match(s, segs, i+1); e != nil {
			return e, ps
		}
	}
	verbs := map[string]bool{}
	for _, e := range sub(func(s Seg) bool {
		return s.Kind == "param" && s.Verb != "" && len(segs[i]) > len(s.Verb) && strings.HasSuffix(segs[i], s.Verb)
	}) {
		verbs[e.Pat[i].Verb] = true
	}
	for v := range verbs { // generators keep verbs from overlapping: at most one
		s := sub(func(s Seg) bool { return s.Kind == "param" && s.Verb == v })
		if e, ps := match(s, segs, i+1); e != nil {
			return e, append([]Param{{s[0].Pat[i].Text, strings.TrimSuffix(segs[i], v)}}, ps...)
		}
	}
	if s := sub(func(s Seg) bool { return s.Kind == "param" && s.Verb == "" }); len(s) > 0 {
		if e, ps := match(s, segs, i+1); e != nil {
			return e, append([]Param{{s[0].Pat[i].Text, segs[i]}}, ps...)
		}
	}
	if s := sub(func(s Seg) bool { return s.Kind == "wild" }); len(s) > 0 {
		return &s[len(s)-1], []Param{{s[0].Pat[i].Text, strings.Join(segs[i:], "/")}}
	}
	return nil, nil
}

// Lits, Verbs are the segment alphabets.
var (
	Lits  = []string{"a", "b", "c", "users", "a:b", "*", "x-y.z", "A", "*ab", "b:run", "日本", "+"}
	Verbs = []string{":run", ":stop", ":up:now"}
)

var names = []string{"id", "uid", "name", "pid", "key", "k"}

// RandPattern makes a pattern of depth 1..max; parameter names depend on the
// depth only, so tables are free of naming conflicts.
func RandPattern(r *rand.Rand, max int) Pattern {
	n := 1 + r.IntN(max)
	var p Pattern
	for i := 0; i < n; i++ {
		x := r.IntN(100)
		switch {
		case x < 50:
			p = append(p, Seg{"lit", Lits[skew(r, len(Lits))], ""})
		case x < 75:
			p = append(p, Seg{"param", names[i%len(names)], ""})
		case x < 87:
			p = append(p, Seg{"param", names[i%len(names)], Verbs[r.IntN(len(Verbs))]})
		default:
			p = append(p, Seg{"wild", "rest", ""})
			return p
		}
	}
	return p
}

func skew(r *rand.Rand, n int) int {
	a, b := r.IntN(n), r.IntN(n)
	if b < a {
		return b
	}
	return a
}

// RandPath instantiates a random pattern of the table, often with changes.
func RandPath(r *rand.Rand, entries []Entry) string {
	var segs []string
	if len(entries) > 0 && r.IntN(10) < 8 {
		for _, s := range entries[r.IntN(len(entries))].Pat {
			switch s.Kind {
			case "lit":
				segs = append(segs, s.Text)
			case "param":
				segs = append(segs, Value(r)+s.Verb)
			case "wild":
				for k := 1 + r.IntN(3); k > 0; k-- {
					segs = append(segs, Value(r))
				}
			}
		}
	} else {
		for k := r.IntN(5); k > 0; k-- {
			segs = append(segs, Value(r))
		}
	}
	for r.IntN(10) < 4 && len(segs) > 0 {
		i := r.IntN(len(segs))
		switch r.IntN(5) {
		case 0:
			segs[i] = Value(r)
		case 1:
			segs = append(segs, Value(r))
		case 2:
			segs = append(segs[:i:i], segs[i+1:]...)
		case 3:
			segs[i] += Verbs[r.IntN(len(Verbs))]
		case 4:
			segs[i] = Lits[r.IntN(len(Lits))]
		}
	}
	p := "/" + strings.Join(segs, "/")
	switch r.IntN(14) {
	case 0:
		p += "/"
	case 1:
		p = strings.Replace(p, "/", "//", 1)
	case 2:
		p += "/."
	case 3:
		p += "/zz/.."
	}
	return p
}

// Value is a path segment value, often equal to a literal used in tables.
func Value(r *rand.Rand) string {
	switch r.IntN(12) {
	case 0, 1, 2, 3, 4:
		return Lits[skew(r, len(Lits))]
	case 5:
		return Lits[r.IntN(len(Lits))] + Verbs[r.IntN(len(Verbs))]
	case 6:
		return []string{"é", "%", "a b", "1", "-9", "x:y", "run", "+", "~", "a=b&c"}[r.IntN(10)]
	default:
		return string(rune('p'+r.IntN(4))) + string(rune('0'+r.IntN(10)))
	}
}
