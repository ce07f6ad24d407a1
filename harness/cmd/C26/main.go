package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
	static "github.com/wujiu2020/strip/static-serve"
	"stripverif/h"
	"stripverif/st"
)

var tree *st.Tree

const host = "site.example"

// genPath makes a hostile path (decoded).
func genPath(c *h.C, o st.Option) string {
	if c.Chance(1) {
		return ""
	}
	parts := []string{"a.txt", "sub", "deep", "noindex", "..", "..", "..", ".", "", "secret.txt", "static", "static-old", "evil.com", "%2e%2e", "..%2f", "..\\", "\\..\\", "a\\b.txt", "c:d", "sp ace", "中文", "...", "..e", "index.html", "void", "dirindex", "base", "q?x", "h#x.txt", "\x00", "a.txt\x00", "C:", "~", "proc", "etc", "p", "q", "P", "Q", "A.TXT", "Sub", "trail ", "trail", ".dot", ".hid", "dir.txt", "\\evil.com", "@evil.com", ":80", "file:", "http:"}
	n := 1 + c.IntN(7)
	var b strings.Builder
	switch c.IntN(5) {
	case 0:
		b.WriteString("//")
	case 1:
		b.WriteString(o.Norm())
		b.WriteString(c.Pick("", "/", "//", "/../", "/.."))
	case 2:
		b.WriteString(o.Norm() + "/" + strings.Repeat("../", 1+c.IntN(12)) + strings.TrimPrefix(c.Pick(tree.Base, tree.Root), "/") + "/")
	default:
		b.WriteString(o.Norm() + "/")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(c.Pick("/", "/", "/", "/", "//", "\\"))
		}
		b.WriteString(parts[c.IntN(len(parts))])
	}
	if c.Chance(30) {
		b.WriteString("/")
	}
	p := b.String()
	if c.Chance(25) {
		// an existing one, reached on a detour
		var names []string
		for f := range tree.Files {
			names = append(names, f)
		}
		for d := range tree.Dirs {
			names = append(names, d)
		}
		sortStrings(names)
		p = o.Norm() + c.Pick("", "/.", "//", "/x/..", "/../..", "/evil.com/..", "/..") + names[c.IntN(len(names))] + c.Pick("", "", "/", "/.", "/x/..", "/../"+c.Pick("secret.txt", "static", "a.txt"))
	}
	if c.Chance(5) {
		if q := o.Norm(); strings.HasPrefix(p, q) {
			// another case of the prefix is another path
			p = c.Pick(strings.ToUpper(q), strings.ToLower(q)) + p[len(q):]
		}
	}
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	return p
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

func app(o st.Option) *strip.Strip {
	sp, _ := h.NewApp()
	sp.Filter(static.ServeFilter(o.Prefix, o.Dir, o.StaticOption))
	sp.NotFound(func(rw http.ResponseWriter) {
		rw.WriteHeader(299)
		io.WriteString(rw, "CHAIN")
	})
	return sp
}

func judge(c *h.C, o st.Option, method, p, query string, status int, hd http.Header, body []byte, headless bool) {
	if bytes.Contains(body, []byte("SECRET")) {
		c.Fatal("escaped", "%s %q got bytes of a file outside: %q", method, p, h.Short(string(body)))
	}
	w := tree.Expect(o, method, p)
	c.Count("want_"+strings.Fields(w.Kind)[0], 1)
	if loc := hd.Get("Location"); loc != "" || status/100 == 3 {
		redirect(c, p, query, status, loc)
		if w.Kind != st.Redirect && w.Kind != st.Free {
			c.Fatal("redirected", "%s %q was redirected to %q, want %+v", method, p, loc, w)
		}
		return
	}
	switch w.Kind {
	case st.File, st.Fallback:
		if status != 200 || !headless && !bytes.Equal(body, tree.Files[w.Name]) {
			c.Fatal("content", "%s %q got status %d %q, want the file %q", method, p, status, h.Short(string(body)), w.Name)
		}
		if headless && hd.Get("Content-Length") != fmt.Sprint(len(tree.Files[w.Name])) {
			c.Fatal("content", "%s %q has length %s, want the file %q", method, p, hd.Get("Content-Length"), w.Name)
		}
	case st.Either:
		if status != 404 && !(status == 200 && (headless || bytes.Equal(body, tree.Files[w.Name]))) {
			c.Fatal("content", "%s %q got status %d %q, want 404 or %q", method, p, status, h.Short(string(body)), w.Name)
		}
	case st.NotFound:
		if status != 404 {
			c.Fatal("content", "%s %q got status %d %q, want 404", method, p, status, h.Short(string(body)))
		}
	case st.Redirect:
		c.Fatal("no-redirect", "%s %q is a directory without slash, got %d %q", method, p, status, h.Short(string(body)))
	case st.Chain:
		if status != 299 || !headless && string(body) != "CHAIN" {
			c.Fatal("not-delegated", "%s %q got status %d %q, want the chain", method, p, status, h.Short(string(body)))
		}
	}
}

// redirect: as a client resolves it, it must stay and only add the slash.
func redirect(c *h.C, p, query string, status int, loc string) {
	if status != 301 && status != 302 && status != 307 && status != 308 {
		c.Fatal("redirect-status", "Location %q with status %d", loc, status)
	}
	base := &url.URL{Scheme: "https", Host: host, Path: p}
	if len(loc) > 1 && (loc[1] == '/' || loc[1] == '\\') || strings.HasPrefix(loc, "\\") {
		c.Fatal("open-redirect", "%q redirects to another host: Location %q", p, loc)
	}
	u, err := url.Parse(loc)
	if err != nil {
		c.Fatal("redirect-text", "%q: Location %q: %v", p, loc, err)
	}
	t := base.ResolveReference(u)
	if t.Host != host || t.Scheme != "https" || t.User != nil {
		c.Fatal("open-redirect", "%q redirects to another host: Location %q", p, loc)
	}
	want := path.Clean("/" + p)
	if want != "/" {
		want += "/"
	}
	got := path.Clean("/" + t.Path)
	if got != "/" {
		got += "/"
	}
	if got != want || !strings.HasSuffix(t.Path, "/") || t.RawQuery != query {
		c.Fatal("redirect-target", "%q with query %q redirects to %q", p, query, loc)
	}
	c.Count("redirects", 1)
}

func direct(c *h.C) {
	o := st.GenOption(c, tree)
	p := genPath(c, o)
	method := c.Pick("GET", "GET", "GET", "HEAD", "POST")
	query := c.Pick("", "", "a=b", "x=/../y?z", "u=//evil.com")
	req := httptest.NewRequest(method, "http://"+host+"/", nil)
	req.URL = &url.URL{Path: p, RawQuery: query}
	if c.Chance(10) {
		req.URL.Host, req.URL.Scheme = "other.example", "http" // an absolute request target
	}
	req.Host = host
	req.RequestURI = req.URL.RequestURI()
	c.Note("%+v %s %q ?%s", o, method, p, query)
	rec := httptest.NewRecorder()
	app(o).ServeHTTP(rec, req)
	judge(c, o, method, p, query, rec.Code, rec.Header(), rec.Body.Bytes(), method == "HEAD")
	c.Count("direct", 1)
	c.Sig("%+v %s %q", o, method, p)
}

// onWire sends the request line as it is.
func onWire(c *h.C) {
	o := st.GenOption(c, tree)
	p := genPath(c, o)
	// encode some bytes, keep others raw
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		ch := p[i]
		if ch <= ' ' || ch >= 0x7f || ch == '%' || ch == '?' || ch == '#' || c.Chance(8) && i > 0 {
			fmt.Fprintf(&b, c.Pick("%%%02x", "%%%02X"), ch)
		} else {
			b.WriteByte(ch)
		}
	}
	target := b.String()
	if c.Chance(10) {
		target = "http://other.example" + target
	}
	query := ""
	if c.Chance(30) {
		query = "a=b"
		target += "?a=b"
	}
	c.Note("%+v target %q path %q", o, target, p)
	srv := httptest.NewServer(app(o))
	defer srv.Close()
	conn, err := net.Dial("tcp", srv.Listener.Addr().String())
	if err != nil {
		c.Inconclusive("%v", err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(30 * time.Second))
	fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: %s\r\nConnection: close\r\n\r\n", target, host)
	res, err := http.ReadResponse(bufio.NewReader(conn), nil)
	if err != nil {
		c.Inconclusive("%v", err)
	}
	body, err := io.ReadAll(res.Body)
	if err != nil {
		c.Fatal("wire", "body: %v", err)
	}
	u, err := url.ParseRequestURI(target)
	if err != nil {
		if res.StatusCode != 400 {
			c.Fatal("wire", "unparsable target %q got %d", target, res.StatusCode)
		}
		c.Count("refused_targets", 1)
		return
	}
	judge(c, o, "GET", u.Path, query, res.StatusCode, res.Header, body, false)
	c.Count("wire", 1)
	c.Sig("wire %+v %q", o, target)
}

func main() {
	h.Main(h.Spec{
		ID:          "C26",
		Rule:        "hostile paths (dot segments, doubled and back slashes, encoded ones, NUL, absolute paths, detours to existing and outside files, host-like first segments) under generated prefixes, directories and options, given directly and as raw request lines; the served bytes are compared with the known content of the one file the cleaned path selects, files outside carry a marker, and Location headers are resolved as a client does",
		Assumptions: []string{"symbolic links inside the directory are followed by design and not used", "skipped prefixes reached on a detour are not specified"},
		Min:         map[string]int64{"direct": 5000, "wire": 300, "redirects": 200, "want_file": 500, "want_notfound": 1000, "want_chain": 300, "want_fallback": 300},
		MinDistinct: 5000,
		Run: func(r *h.R) {
			var err error
			tree, err = st.Make(os.TempDir())
			if err != nil {
				r.Inconclusive("%v", err)
			}
			r.Par("direct", r.N(3000, 100000), direct)
			r.Loop("direct", r.N(12000, 400000), direct)
			r.Loop("wire", r.N(600, 10000), onWire)
		},
	})
}
