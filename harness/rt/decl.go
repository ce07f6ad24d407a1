package rt

import (
	"math/rand/v2"

	"github.com/wujiu2020/strip"
)

// Decl is a tree of declarations: a Router call with own handlers and nested ones.
type Decl struct {
	Pat      Pattern // relative
	Handlers []int   // ids of entries declared here
	Kids     []*Decl
}

// RandDecls arranges the entries into nested or flat declarations; the groups
// that were needed are returned as extra declared routes without handlers.
func RandDecls(r *rand.Rand, entries []Entry) (decls []*Decl, groups []Entry) {
	order := r.Perm(len(entries))
	var place func(ds *[]*Decl, prefix, rest Pattern, id int)
	place = func(ds *[]*Decl, prefix, rest Pattern, id int) {
		// join an existing declaration that is a prefix of ours?
		if r.IntN(3) > 0 {
			for _, k := range r.Perm(len(*ds)) {
				d := (*ds)[k]
				if len(d.Pat) < len(rest) && eq(d.Pat, rest[:len(d.Pat)]) {
					place(&d.Kids, cat(prefix, d.Pat), rest[len(d.Pat):], id)
					return
				}
			}
		}
		// make a new group?
		if len(rest) > 1 && r.IntN(3) == 0 {
			n := 1 + r.IntN(len(rest)-1)
			d := &Decl{Pat: rest[:n]}
			*ds = append(*ds, d)
			groups = append(groups, Entry{ID: -1, Pat: cat(prefix, d.Pat)})
			place(&d.Kids, cat(prefix, d.Pat), rest[n:], id)
			return
		}
		*ds = append(*ds, &Decl{Pat: rest, Handlers: []int{id}})
	}
	for _, k := range order {
		place(&decls, nil, entries[k].Pat, entries[k].ID)
	}
	return
}

func cat(a, b Pattern) Pattern { return append(append(Pattern{}, a...), b...) }

func eq(a, b Pattern) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Build turns a declaration into a Router handler.
func (d *Decl) Build(r *rand.Rand, handlers func(id int) []strip.Handler) strip.Handler {
	var hs []strip.Handler
	for _, id := range d.Handlers {
		hs = append(hs, handlers(id)...)
	}
	for _, k := range d.Kids {
		hs = append(hs, k.Build(r, handlers))
	}
	r.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
	p := d.Pat.String()
	switch r.IntN(6) {
	case 0:
		p = p[1:]
	case 1:
		p += "/"
	}
	return strip.Router(p, hs...)
}
