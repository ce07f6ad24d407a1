// Package st has the reference for static serving: a known tree of files and
// what a request for it must get.
package st

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"strings"
	"time"

	static "github.com/wujiu2020/strip/static-serve"
	"stripverif/h"
)

// Tree is a directory with known content, next to secrets.
type Tree struct {
	Base, Root string            // Root is the served directory, Base its parent
	Files      map[string][]byte // clean path below Root -> content
	Dirs       map[string]bool
	Mod        time.Time
}

// Make builds the tree in dir.
func Make(dir string) (*Tree, error) {
	t := &Tree{Base: filepath.Join(dir, "base"), Files: map[string][]byte{}, Dirs: map[string]bool{"/": true}, Mod: time.Unix(1600000000, 0)}
	t.Root = filepath.Join(t.Base, "static")
	big := strings.Repeat("0123456789abcdef\n", 4000)
	for name, text := range map[string]string{
		"/a.txt": "file a", "/index.html": "<html>root</html>", "/b.css": "b{}", "/empty": "", "/big.bin": big,
		"/sub/index.html": "<html>sub</html>", "/sub/c.js": "c()", "/sub/deep/d.txt": "file d",
		"/noindex/e.txt": "file e", "/noindex/..e": "file dots", "/sp ace/f g.txt": "spaces", "/sp ace/index.html": "space index",
		"/中文/文.txt": "unicode", "/%2e%2e/x.txt": "percent", "/a\\b.txt": "backslash", "/c:d/index.html": "colon",
		"/...": "three dots", "/dir.txt/index.html": "dir with extension", "/fallback.html": "<html>fallback</html>",
		"/evil.com/index.html": "not evil", "/skip/s.txt": "skip s", "/skipped.txt": "skip file", "/api/x": "api x", "/static/a.txt": "inner a", "/p/a.txt": "inner p", "/q?x/index.html": "question", "/h#x.txt": "hash",
		"/trail ": "trailing blank", "/ lead.txt": "leading blank", "/Upper.TXT": "upper", "/P/Q/a.txt": "inner upper", "/.dot": "dot file", "/.hid/x": "in a dot directory",
	} {
		t.Files[name] = []byte(fmt.Sprintf("[%s] %s", name, text))
	}
	t.Files["/empty"] = []byte{}
	for name, b := range t.Files {
		p := filepath.Join(t.Root, filepath.FromSlash(name))
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(p, b, 0o644); err != nil {
			return nil, err
		}
		if err := os.Chtimes(p, t.Mod, t.Mod); err != nil {
			return nil, err
		}
		for d := path.Dir(name); d != "/"; d = path.Dir(d) {
			t.Dirs[d] = true
		}
	}
	for _, d := range []string{"/void", "/dirindex/index.html"} {
		if err := os.MkdirAll(filepath.Join(t.Root, d), 0o755); err != nil {
			return nil, err
		}
		t.Dirs[d] = true
	}
	t.Dirs["/dirindex"] = true
	for _, s := range []string{"secret.txt", "a.txt", "index.html", "static-old/a.txt", "static.txt", "sub/c.js", "p/a.txt"} {
		p := filepath.Join(t.Base, s)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte("SECRET "+s), 0o644); err != nil {
			return nil, err
		}
	}
	// the same directory by a name ending with a blank
	if err := os.Symlink(t.Root, filepath.Join(t.Base, "pub ")); err != nil {
		return nil, err
	}
	return t, nil
}

// Option is one configuration of the filter.
type Option struct {
	Prefix string
	Dir    string // how the directory is written
	static.StaticOption
}

var prefixes = []string{"", "/", "/p", "p", "/p/", "p/q", "/p/q/", "/sub", "/中", "//", "/P/q", "/p q", "/trail "}

// GenOption makes a configuration.
func GenOption(c *h.C, t *Tree) (o Option) {
	o.Prefix = prefixes[c.IntN(len(prefixes))]
	o.Dir = t.Root
	switch c.IntN(5) {
	case 3:
		o.Dir = filepath.Join(t.Base, "pub ")
	case 0:
		o.Dir += "/"
	case 1:
		o.Dir = t.Root + "/../static/./"
	case 2:
		if wd, err := os.Getwd(); err == nil {
			if r, err := filepath.Rel(wd, t.Root); err == nil {
				o.Dir = r
			}
		}
	}
	o.AnyMethod = c.Chance(25)
	if c.Chance(35) {
		o.TryFilesThen = c.Pick("/fallback.html", "fallback.html", "/sub/c.js", "/missing.html")
	}
	if c.Chance(35) {
		for i := 0; i < 1+c.IntN(2); i++ {
			o.SkipPrefix = append(o.SkipPrefix, c.Pick("/skip", "/skip/", "/api", "/sub/deep"))
		}
	}
	return
}

// Norm is the prefix as it is compared.
func (o Option) Norm() string {
	if o.Prefix == "" {
		return ""
	}
	return strings.TrimRight("/"+strings.TrimPrefix(o.Prefix, "/"), "/")
}

// Kinds of answers.
const (
	Chain    = "chain"    // not its own
	File     = "file"     // the content
	Redirect = "redirect" // to the path with slash
	NotFound = "notfound"
	Fallback = "fallback"
	Either   = "notfound or fallback"
	Free     = "free" // not specified
)

// Want is what a request must get.
type Want struct {
	Kind string
	Name string // path of the file served
}

// Expect tells what the request must get.
func (t *Tree) Expect(o Option, method, p string) Want {
	if !o.AnyMethod && method != "GET" && method != "HEAD" {
		return Want{Kind: Chain}
	}
	pre := o.Norm()
	if !strings.HasPrefix(p, pre) {
		return Want{Kind: Chain}
	}
	rest := p[len(pre):]
	if pre != "" && rest != "" && rest[0] != '/' {
		return Want{Kind: Chain}
	}
	clean := path.Clean("/" + rest)
	for _, s := range o.SkipPrefix {
		if strings.HasPrefix(rest, s) {
			return Want{Kind: Chain}
		}
	}
	for _, s := range o.SkipPrefix {
		if strings.HasPrefix(clean, s) || strings.HasPrefix(clean+"/", s) {
			return Want{Kind: Free} // reached in a roundabout way
		}
	}
	miss := func(also bool) Want {
		f := path.Clean("/" + o.TryFilesThen)
		if o.TryFilesThen == "" || t.Files[f] == nil {
			return Want{Kind: NotFound}
		}
		if also {
			return Want{Kind: Either, Name: f}
		}
		return Want{Kind: Fallback, Name: f}
	}
	if strings.Contains(clean, "\x00") {
		return miss(false)
	}
	if t.Files[clean] != nil {
		return Want{Kind: File, Name: clean}
	}
	if !t.Dirs[clean] {
		return miss(false)
	}
	if !strings.HasSuffix(p, "/") {
		return Want{Kind: Redirect}
	}
	idx := path.Join(clean, "index.html")
	if t.Files[idx] != nil {
		return Want{Kind: File, Name: idx}
	}
	return miss(true)
}

// Open lists the open files below the tree.
func (t *Tree) Open() (out []string) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return nil
	}
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.HasPrefix(l, t.Base) {
			out = append(out, l)
		}
	}
	return
}
