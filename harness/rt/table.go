package rt

import (
	"math/rand/v2"
)

var depthNames = []string{"id", "uid", "name", "pid", "key", "k", "m", "n"}

// Table makes a conflict-free table of distinct patterns; parameter names are
// a function of the depth.
func Table(r *rand.Rand, maxRoutes int) []Entry {
	n := 1 + r.IntN(maxRoutes)
	var es []Entry
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		p := RandPattern(r, 4)
		if len(es) > 0 && r.IntN(2) == 0 { // extend or reuse a prefix of an existing one
			q := es[r.IntN(len(es))].Pat
			k := r.IntN(len(q) + 1)
			if k > 0 && q[k-1].Kind == "wild" {
				k--
			}
			p = append(append(Pattern{}, q[:k]...), p...)
		}
		if len(p) > len(depthNames) {
			continue
		}
		for j := range p {
			if p[j].Kind == "param" {
				p[j].Text = depthNames[j]
			}
		}
		if seen[p.String()] {
			continue
		}
		seen[p.String()] = true
		es = append(es, Entry{ID: len(es), Pat: p, Handler: true})
	}
	return es
}
