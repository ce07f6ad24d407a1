package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/wujiu2020/strip"
	static "github.com/wujiu2020/strip/static-serve"
	"stripverif/h"
	"stripverif/st"
)

var (
	tree  *st.Tree
	names []string
)

// genPath makes plain paths, mostly of existing things.
func genPath(c *h.C, o st.Option) string {
	p := names[c.IntN(len(names))]
	if c.Chance(25) {
		p = c.Pick("/none", "/sub/none.js", "/none/", "/a.txt/x", "/skip/none", "/api", "/apix", "/skip", "/sub/deep/none", "/index", "/none.css")
	}
	if tree.Dirs[p] && p != "/" && c.Chance(60) {
		p += "/"
	}
	pre := o.Norm()
	switch c.IntN(10) {
	case 0:
		pre += "x"
	case 1:
		pre = c.Pick("", "/other", strings.ToUpper(pre), "/x"+pre)
	case 2:
		if pre != "" {
			return pre
		}
	case 3:
		if len(pre) > 1 {
			pre = pre[:len(pre)-1]
		}
	}
	return pre + p
}

var errAction = errors.New("boom")

type seen struct {
	ran    int
	path   string
	url    string
	header http.Header
	rw     http.Header
}

func serve(c *h.C) {
	o := st.GenOption(c, tree)
	if c.Chance(10) {
		o.SkipPrefix = append(o.SkipPrefix, "/none", "/index")
	}
	method := c.Pick("GET", "GET", "GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "get", "PATCH", "CUSTOM")
	p := genPath(c, o)
	req := h.Req(method, p)
	w := tree.Expect(o, method, p)
	hd := map[string]string{}
	if c.Chance(35) {
		n := len(tree.Files[w.Name])
		switch c.IntN(7) {
		case 0:
			hd["Range"] = fmt.Sprintf("bytes=%d-%d", c.IntN(n+1), c.IntN(n+10))
		case 1:
			hd["Range"] = c.Pick("bytes=-5", "bytes=3-", "bytes=0-0", "bytes=9999999-", "bytes=a-b", "items=0-1", "bytes=0-1,4-6", "bytes=-0")
		case 2:
			hd["If-Modified-Since"] = tree.Mod.UTC().Format(http.TimeFormat)
		case 3:
			hd["If-Modified-Since"] = tree.Mod.Add(-3600e9).UTC().Format(http.TimeFormat)
		case 4:
			hd["If-Unmodified-Since"] = tree.Mod.Add(-3600e9).UTC().Format(http.TimeFormat)
		case 5:
			hd["Range"] = "bytes=1-3"
			hd["If-Range"] = tree.Mod.UTC().Format(http.TimeFormat)
		case 6:
			hd["Range"] = "bytes=1-3"
			hd["If-Range"] = tree.Mod.Add(-3600e9).UTC().Format(http.TimeFormat)
		}
	}
	for k, v := range hd {
		req.Header.Set(k, v)
	}
	c.Note("%+v %s %q %q want %+v", o, method, p, hd, w)

	var s seen
	sp, _ := h.NewApp()
	before := c.Chance(30)
	if before {
		sp.Filter(func(rw http.ResponseWriter) { rw.Header().Set("X-Before", "1") })
	}
	sp.Filter(static.ServeFilter(o.Prefix, o.Dir, o.StaticOption))
	note := func(rw http.ResponseWriter, r *http.Request) {
		s.ran++
		s.path, s.url, s.header, s.rw = r.URL.Path, r.URL.String(), r.Header.Clone(), rw.Header().Clone()
	}
	sp.Filter(note)
	// what follows in the chain: another static filter, or the end
	second := c.Chance(15)
	if second {
		sp.Filter(static.ServeFilter("", tree.Root))
	}
	sp.NotFound(func(rw http.ResponseWriter) {
		rw.WriteHeader(299)
		io.WriteString(rw, "CHAIN")
	})
	hdrs := req.Header.Clone()
	rec := httptest.NewRecorder()
	sp.ServeHTTP(rec, req)

	if open := tree.Open(); len(open) > 0 {
		c.Fatal("leak", "left open after the request: %q", open)
	}
	c.Count("fd_checks", 1)
	c.Count("want_"+strings.Fields(w.Kind)[0], 1)
	body := rec.Body.Bytes()
	if w.Kind == st.Free {
		return
	}
	if (w.Kind == st.Chain) != (s.ran == 1) || s.ran > 1 {
		c.Fatal("chain", "what follows ran %d times (status %d %q), want %+v", s.ran, rec.Code, h.Short(string(body)), w)
	}
	if w.Kind == st.Chain {
		if s.path != p || s.url != req.URL.String() || !reflect.DeepEqual(s.header, hdrs) {
			c.Fatal("changed", "the chain saw path %q url %q header %q, request has %q %q %q", s.path, s.url, s.header, p, req.URL, hdrs)
		}
		want := 1 // powered by
		if before {
			want++
		}
		if len(s.rw) != want {
			c.Fatal("changed", "the chain found response headers %q", s.rw)
		}
		if !second && (rec.Code != 299 || string(body) != "CHAIN") {
			c.Fatal("chain", "the chain's answer was replaced: %d %q", rec.Code, h.Short(string(body)))
		}
		c.Sig("chain %+v %s %q", o, method, p)
		return
	}
	if before && rec.Header().Get("X-Before") != "1" {
		c.Fatal("headers", "headers set before are lost: %q", rec.Header())
	}
	kind, name := w.Kind, w.Name
	if kind == st.Either {
		kind = st.NotFound
		if rec.Code != 404 {
			kind = st.Fallback
		}
	}
	switch kind {
	case st.NotFound:
		if rec.Code != 404 {
			c.Fatal("notfound", "status %d %q, want 404", rec.Code, h.Short(string(body)))
		}
	case st.Redirect:
		if rec.Code/100 != 3 || rec.Header().Get("Location") == "" {
			c.Fatal("redirect", "status %d %q, want a redirect", rec.Code, rec.Header())
		}
	case st.File, st.Fallback:
		// the standard library's answer for this content
		ref := httptest.NewRecorder()
		r2 := h.Req(method, p)
		for k, v := range hd {
			r2.Header.Set(k, v)
		}
		http.ServeContent(ref, r2, path.Base(name), tree.Mod, bytes.NewReader(tree.Files[name]))
		if rec.Code != ref.Code {
			c.Fatal("status", "status %d, want %d for %q", rec.Code, ref.Code, name)
		}
		multi := strings.HasPrefix(ref.Header().Get("Content-Type"), "multipart/byteranges")
		if !multi && !bytes.Equal(body, ref.Body.Bytes()) {
			c.Fatal("body", "body %q, want %q", h.Short(string(body)), h.Short(ref.Body.String()))
		}
		for _, k := range []string{"Content-Length", "Content-Range", "Last-Modified", "Accept-Ranges", "Content-Type"} {
			if multi && (k == "Content-Type" || k == "Content-Length") || k == "Content-Type" && (kind == st.Fallback || len(body) == 0) {
				continue
			}
			if rec.Header().Get(k) != ref.Header().Get(k) {
				c.Fatal("header", "%s %q, want %q for %q", k, rec.Header().Get(k), ref.Header().Get(k), name)
			}
		}
		c.Count(fmt.Sprintf("status_%d", rec.Code), 1)
		if method == "HEAD" {
			c.Count("heads", 1)
			if len(body) > 0 && rec.Code < 300 {
				c.Fatal("head-body", "HEAD has a body %q", h.Short(string(body)))
			}
		}
	}
	c.Sig("%s %+v %s %q %q", w.Kind, o, method, p, hd)
}

// failing clients: a broken connection leaves nothing open either.
type broken struct{ *httptest.ResponseRecorder }

func (b broken) Write(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	return 0, errors.New("connection reset")
}

type panicking struct{ *httptest.ResponseRecorder }

func (b panicking) Write(p []byte) (int, error) { panic(errAction) }

func leaks(c *h.C) {
	o := st.GenOption(c, tree)
	method := c.Pick("GET", "GET", "HEAD", "POST")
	p := genPath(c, o)
	sp, _ := h.NewApp()
	if c.Chance(50) {
		sp.Filter(strip.RecoveryFilter())
	}
	sp.Filter(static.ServeFilter(o.Prefix, o.Dir, o.StaticOption))
	sp.NotFound(func(rw http.ResponseWriter) { rw.WriteHeader(404) })
	var rw http.ResponseWriter = broken{httptest.NewRecorder()}
	if c.Chance(50) {
		rw = panicking{httptest.NewRecorder()}
	}
	c.Note("%+v %s %q on %T", o, method, p, rw)
	func() {
		defer func() { recover() }()
		sp.ServeHTTP(rw, h.Req(method, p))
	}()
	if open := tree.Open(); len(open) > 0 {
		c.Fatal("leak", "left open after a broken request: %q", open)
	}
	c.Count("broken", 1)
	c.Sig("leak %+v %s %q", o, method, p)
}

func main() {
	h.Main(h.Spec{
		ID:          "C27",
		Rule:        "requests of all methods for existing and missing files and directories, on, beside and off the prefix, under skipped prefixes, with range and conditional headers, through filters of generated options; whether the chain ran and what it saw, and status, headers and body are compared with a reference (the standard library serving the known content); after every request, also with failing and panicking connections, the open files below the tree are listed (garbage collection off)",
		Assumptions: []string{"a directory without index may answer 404 or the fallback", "the content type of fallback content is not specified", "net/http's ServeContent is right about ranges and conditions"},
		Min:         map[string]int64{"want_chain": 1000, "want_file": 1000, "want_redirect": 100, "want_notfound": 500, "want_fallback": 120, "status_206": 50, "status_304": 30, "status_416": 20, "heads": 100, "fd_checks": 5000, "broken": 500},
		MinDistinct: 4000,
		Run: func(r *h.R) {
			debug.SetGCPercent(-1)
			var err error
			tree, err = st.Make(os.TempDir())
			if err != nil {
				r.Inconclusive("%v", err)
			}
			for f := range tree.Files {
				names = append(names, f)
			}
			for d := range tree.Dirs {
				names = append(names, d)
			}
			sort.Strings(names)
			n := 0
			gc := func(f func(c *h.C)) func(c *h.C) {
				return func(c *h.C) {
					f(c)
					if n++; n%500 == 0 {
						runtime.GC()
					}
				}
			}
			r.Loop("serve", r.N(10000, 300000), gc(serve))
			r.Loop("leaks", r.N(1500, 30000), gc(leaks))
		},
	})
}
