package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	zip "github.com/wujiu2020/strip/gzip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"stripverif/h"
)

type upload struct {
	field, name string
	data        []byte
}

func left() (out []string) {
	es, _ := os.ReadDir(os.TempDir())
	for _, e := range es {
		out = append(out, e.Name())
	}
	return
}

// inspect reads every file in the way a handler would.
func inspect(c *h.C, where string, p *params.Params, ups []upload) {
	want := map[string][]upload{}
	for _, u := range ups {
		want[u.field] = append(want[u.field], u)
	}
	if len(p.Files) != len(want) {
		c.Fail("fields", "%s: %d file fields, want %d", where, len(p.Files), len(want))
		return
	}
	for f, l := range want {
		if len(p.Files[f]) != len(l) {
			c.Fail("count", "%s: field %q has %d files, want %d", where, f, len(p.Files[f]), len(l))
			return
		}
		for i, fh := range p.Files[f] {
			if fh.Filename != l[i].name || fh.Size != int64(len(l[i].data)) {
				c.Fail("meta", "%s: field %q file %d is %q size %d, want %q %d", where, f, i, fh.Filename, fh.Size, l[i].name, len(l[i].data))
			}
			rd, err := fh.Open()
			if err != nil {
				c.Fail("open", "%s: field %q file %d (%d bytes): %v", where, f, i, fh.Size, err)
				return
			}
			b, err := io.ReadAll(rd)
			if err != nil || !bytes.Equal(b, l[i].data) {
				c.Fail("content", "%s: field %q file %d: read %d bytes (%x) err %v, want %d", where, f, i, len(b), sha256.Sum256(b), err, len(l[i].data))
			}
			if _, ok := rd.(*os.File); ok {
				c.Count("read_from_disk", 1)
			} else {
				c.Count("read_from_memory", 1)
			}
			if n := len(l[i].data); n > 1 { // seek and random access
				if _, err := rd.Seek(int64(n/2), io.SeekStart); err != nil {
					c.Fail("seek", "%s: %v", where, err)
				}
				rest, _ := io.ReadAll(rd)
				if !bytes.Equal(rest, l[i].data[n/2:]) {
					c.Fail("seek", "%s: after seeking to %d read %d bytes", where, n/2, len(rest))
				}
				var b1 [1]byte
				rd.ReadAt(b1[:], int64(n-1))
				if b1[0] != l[i].data[n-1] {
					c.Fail("readat", "%s: last byte differs", where)
				}
			}
			rd.Close()
		}
	}
}

type key string

func run(c *h.C) {
	if l := left(); len(l) > 0 {
		c.Inconclusive("temporary directory not empty before: %v", l)
	}
	mem := []int{1, 16, 1000, 64 << 10, 0}[c.IntN(5)]
	nreq := 1
	if c.Chance(25) {
		nreq = 2 + c.IntN(6)
	}
	type job struct {
		ups  []upload
		body []byte
		ct   string
		bad  bool
	}
	var jobs []job
	sig := fmt.Sprint("mem", mem)
	for r := 0; r < nreq; r++ {
		var j job
		var b bytes.Buffer
		w := multipart.NewWriter(&b)
		for i := c.IntN(4); i >= 0; i-- {
			n := []int{0, 1, mem, mem + 1, mem - 1, 4096, 20000, 100000}[c.IntN(8)]
			if n < 0 {
				n = 0
			}
			u := upload{c.Pick("f", "g", "é", "a b"), c.Pick("x.txt", "ü.bin", "a b", "q\"uote"), make([]byte, n)}
			for k := range u.data {
				u.data[k] = byte(c.Uint32())
			}
			f, _ := w.CreateFormFile(u.field, u.name)
			f.Write(u.data)
			j.ups = append(j.ups, u)
			sig += fmt.Sprintf(" %s:%d", u.field, n)
			if c.Chance(30) {
				w.WriteField("v", "1")
			}
		}
		w.Close()
		j.body, j.ct = b.Bytes(), w.FormDataContentType()
		if c.Chance(10) {
			j.bad = true
			j.body = j.body[:c.IntN(len(j.body))]
		}
		jobs = append(jobs, j)
	}
	end := c.Pick("ok", "ok", "panic-action", "panic-filter", "abort", "filter-writes", "none-reads")
	recov := c.Chance(50)
	logger, gz, copyReq, early := c.IntN(3), c.Chance(30), c.IntN(4), c.Chance(40)
	sig += fmt.Sprintf(" end %s recovery %v logger %d gzip %v copy %d early %v requests %d", end, recov, logger, gz, copyReq, early, nreq)
	c.Note("%s", sig)

	sp, _ := h.NewApp()
	if mem > 0 {
		cfg, err := config.LoadIniFromReader(strings.NewReader(fmt.Sprintf("max_memory = %d\n", mem)))
		if err != nil {
			c.Inconclusive("config: %v", err)
		}
		sp.ImportConfig(cfg)
	}
	sp.Provide(params.ParamsParser())
	var mu sync.Mutex
	visits := 0
	see := func(where string, req *http.Request, p *params.Params) {
		var n int
		fmt.Sscan(req.Header.Get("X-N"), &n)
		mu.Lock()
		visits++
		mu.Unlock()
		if !jobs[n].bad {
			inspect(c, where, p, jobs[n].ups)
		}
	}
	if recov {
		sp.Filter(strip.RecoveryFilter())
	}
	if logger == 1 {
		sp.Filter(reqlogger.ReqLoggerFilter(&h.LogSink{}))
	}
	if gz {
		sp.Filter(zip.All())
	}
	if early {
		sp.Filter(func(ctx strip.Context, p *params.Params, req *http.Request) {
			see("app filter", req, p)
			ctx.Next()
			see("app filter after", req, p)
		})
	}
	if copyReq == 1 || copyReq == 3 {
		sp.Filter(func(ctx strip.Context, req *http.Request) {
			ctx.Provide(req.WithContext(context.WithValue(req.Context(), key("k"), 1)))
		})
	}
	var fs []any
	if logger == 2 {
		fs = append(fs, reqlogger.ReqLoggerFilter(&h.LogSink{}))
	}
	if copyReq == 2 {
		fs = append(fs, func(ctx strip.Context, req *http.Request) {
			ctx.Provide(req.Clone(req.Context()))
		})
	}
	fs = append(fs, func(ctx strip.Context, p *params.Params, req *http.Request, rw http.ResponseWriter) {
		see("route filter", req, p)
		switch end {
		case "panic-filter":
			panic("filter")
		case "filter-writes":
			rw.WriteHeader(401)
			return
		}
		ctx.Next()
		see("route filter after", req, p)
	})
	if copyReq == 3 {
		fs = append(fs, func(ctx strip.Context, req *http.Request) {
			ctx.Provide(req.WithContext(context.WithValue(req.Context(), key("k2"), 1)))
		})
	}
	act := func(p *params.Params, req *http.Request, rw http.ResponseWriter, ctx strip.Context) {
		see("action", req, p)
		see("action again", req, p)
		switch end {
		case "panic-action":
			panic("action")
		case "abort":
			panic(http.ErrAbortHandler)
		}
		rw.WriteHeader(200)
		io.WriteString(rw, "done")
		see("action after writing", req, p)
	}
	sp.Routers(strip.Router("/up", strip.Filter(fs...), strip.Any(act)))
	mk := func(i int) *http.Request {
		j := jobs[i]
		req := httptest.NewRequest("POST", "/up", bytes.NewReader(j.body))
		req.Header.Set("Content-Type", j.ct)
		req.Header.Set("X-N", fmt.Sprint(i))
		if gz {
			req.Header.Set("Accept-Encoding", "gzip")
		}
		return req
	}
	serve := func(i int) {
		defer func() { recover() }()
		sp.ServeHTTP(httptest.NewRecorder(), mk(i))
	}
	if nreq == 1 {
		serve(0)
	} else {
		var wg sync.WaitGroup
		for i := range jobs {
			wg.Add(1)
			go func(i int) { defer wg.Done(); serve(i) }(i)
		}
		wg.Wait()
	}
	if visits < nreq {
		c.Fatal("not-run", "the handlers ran %d times", visits)
	}
	c.Count("inspections", visits)
	if l := left(); len(l) > 0 {
		sort.Strings(l)
		for _, n := range l {
			os.Remove(os.TempDir() + "/" + n)
		}
		c.Fatal("left", "after the requests the temporary directory holds %v", l)
	}
	c.Count("requests", nreq)
	c.Count("end_"+end, nreq)
	c.Sig("%s", sig)
}

func main() {
	h.Main(h.Spec{
		ID:          "C18",
		Rule:        "uploads of 1-4 files with sizes around the memory limit (1 byte to 64 KB, or unset), some requests truncated, 1-7 requests at once, through chains with recovery, request logger, compression and filters that replace the request; every filter (before and after the rest) and the action opens, reads, seeks all files and compares bytes, names, fields and sizes; the end is normal, a panic (recovered or not), an abort or an early answer; afterwards the private temporary directory must be empty",
		Assumptions: []string{"the temporary directory is private to the check"},
		Min:         map[string]int64{"read_from_disk": 500, "read_from_memory": 500, "requests": 500, "end_panic-action": 30, "end_panic-filter": 30},
		MinDistinct: 300,
		Run: func(r *h.R) {
			r.Loop("upload", r.N(900, 30000), run)
		},
	})
}
