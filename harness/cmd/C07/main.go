package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
	"stripverif/h"
)

// sink records what the wrapper does to the real writer.
type sink struct {
	hdr   http.Header
	ev    []string
	body  bytes.Buffer
	sent  http.Header
	codes []int
	fail  bool // writes fail halfway
}

func (s *sink) Header() http.Header { return s.hdr }
func (s *sink) commit(code int) {
	s.codes = append(s.codes, code)
	if s.sent == nil {
		s.sent = s.hdr.Clone()
	}
}
func (s *sink) WriteHeader(code int) { s.ev = append(s.ev, "H"); s.commit(code) }
func (s *sink) Write(b []byte) (int, error) {
	if len(s.codes) == 0 {
		s.commit(200)
	}
	if s.fail && len(b) > 3 {
		b = b[:3]
		s.body.Write(b)
		s.ev = append(s.ev, fmt.Sprint("W", len(b)))
		return 3, io.ErrShortWrite
	}
	if len(b) > 0 {
		s.ev = append(s.ev, fmt.Sprint("W", len(b)))
	}
	return s.body.Write(b)
}

type flushSink struct{ *sink }

func (s flushSink) Flush() {
	if len(s.codes) == 0 {
		s.commit(200)
	}
	s.ev = append(s.ev, "F")
}

type op struct {
	kind string
	k, v string
	code int
	data []byte
	id   int  // of a hook
	boom bool // the hook panics
}

func (o op) String() string {
	return fmt.Sprintf("%s(%s%s%d:%d)", o.kind, o.k, o.v, o.code, len(o.data))
}

// model is the reference response.
type model struct {
	hdr       http.Header
	status    int
	committed bool
	sent      http.Header
	code      int
	body      []byte
	size      int
	hooks     []op
	ran       []string
}

func (m *model) commit() {
	if m.committed {
		return
	}
	for len(m.hooks) > 0 {
		o := m.hooks[len(m.hooks)-1]
		m.hooks = m.hooks[:len(m.hooks)-1]
		m.ran = append(m.ran, fmt.Sprint("h", o.id))
		if o.k != "" {
			m.hdr.Set(o.k, o.v)
		}
		if o.code != 0 {
			m.status = o.code
		}
		if o.boom {
			return // the operation panics, the header waits for the next one
		}
	}
	if m.status == 0 {
		m.status = 200
	}
	m.committed = true
	m.code = m.status
	m.sent = m.hdr.Clone()
}

var codes = []int{200, 201, 204, 206, 301, 304, 400, 404, 418, 500, 503, 599}

func genOps(c *h.C, flush bool) (ops []op) {
	for n := c.IntN(9); n > 0; n-- {
		o := op{}
		switch x := c.IntN(14); {
		case x < 3:
			o = op{kind: "set", k: c.Pick("X-A", "X-B", "Content-Type", "X-C"), v: c.Pick("1", "2", "text/plain", "v")}
		case x < 4:
			o = op{kind: "del", k: c.Pick("X-A", "X-B")}
		case x < 5:
			o = op{kind: "add", k: "X-A", v: c.Pick("3", "4")}
		case x < 8:
			o = op{kind: "status", code: codes[c.IntN(len(codes))]}
			if c.Chance(6) {
				o = op{kind: "zero"} // the status is missing: a recovered panic that changes nothing
			}
		case x < 11:
			d := make([]byte, []int{0, 1, 3, 7, 100, 5000}[c.IntN(6)])
			for i := range d {
				d[i] = byte('a' + c.IntN(26))
			}
			o = op{kind: "write", data: d}
		case x < 12:
			if flush {
				o = op{kind: "flush"}
			} else {
				o = op{kind: "write"}
			}
		default:
			o = op{kind: "before"}
			if c.Chance(60) {
				o.k, o.v = c.Pick("X-A", "X-H"), c.Pick("h1", "h2")
			}
			if c.Chance(30) {
				o.code = codes[c.IntN(len(codes))]
			}
		}
		ops = append(ops, o)
	}
	return
}

// zero sets no status at all; whatever that does must not change the response.
func zero(rw strip.ResponseWriter) {
	defer func() { recover() }()
	rw.WriteHeader(0)
}

// survive tells whether f panicked.
func survive(f func()) (boom bool) {
	defer func() { boom = recover() != nil }()
	f()
	return
}

func unit(c *h.C) {
	s := &sink{hdr: http.Header{}, fail: c.Chance(10)}
	flusher := c.Chance(80)
	var under http.ResponseWriter = s
	if flusher {
		under = flushSink{s}
	}
	ops := genOps(c, true)
	m := &model{hdr: http.Header{}}
	m.hdr.Set("X-Powered-By", "Teapot")
	var ran []string
	hooks := 0
	sp, _ := h.NewApp()
	state := func(rw strip.ResponseWriter, o op) {
		if rw.Status() != m.status || rw.Written() != (m.status != 0) || rw.Size() != m.size {
			c.Fail("state", "after %v: Status %d Written %v Size %d, expected %d %v %d", o, rw.Status(), rw.Written(), rw.Size(), m.status, m.status != 0, m.size)
		}
	}
	run := func(rw strip.ResponseWriter, ops []op) {
		for _, o := range ops {
			o := o
			switch o.kind {
			case "set":
				rw.Header().Set(o.k, o.v)
				m.hdr.Set(o.k, o.v)
			case "add":
				rw.Header().Add(o.k, o.v)
				m.hdr.Add(o.k, o.v)
			case "del":
				rw.Header().Del(o.k)
				m.hdr.Del(o.k)
			case "status":
				rw.WriteHeader(o.code)
				if !m.committed {
					m.status = o.code
				}
			case "zero":
				zero(rw)
			case "write":
				var n int
				var err error
				boom := survive(func() { n, err = rw.Write(o.data) })
				m.commit()
				if boom != !m.committed {
					c.Fail("hook-panic", "%v: panicked %v with the header sent %v", o, boom, m.committed)
				}
				if boom {
					c.Count("panicking hooks", 1)
					state(rw, o)
					continue
				}
				k := len(o.data)
				if s.fail && k > 3 {
					k = 3
					if err == nil {
						c.Fail("write-error", "a failed write reported success")
					}
				} else if err != nil {
					c.Fail("write-error", "Write: %v", err)
				}
				if n != k {
					c.Fail("write-n", "Write of %d bytes returned %d", len(o.data), n)
				}
				m.body = append(m.body, o.data[:k]...)
				m.size += k
			case "flush":
				boom := survive(rw.Flush)
				if flusher {
					m.commit()
					if boom != !m.committed {
						c.Fail("hook-panic", "%v: panicked %v with the header sent %v", o, boom, m.committed)
					}
				} else if boom {
					c.Fail("hook-panic", "a flush that is not possible panicked")
				}
			case "before":
				hooks++
				i := hooks
				o.id, o.boom = i, c.Chance(8)
				if !m.committed {
					m.hooks = append(m.hooks, o)
				} else {
					i = -1
				}
				rw.Before(func(rw strip.ResponseWriter) {
					ran = append(ran, fmt.Sprint("h", i))
					if len(s.codes) > 0 {
						c.Fail("late-hook", "a hook ran after the header had left")
					}
					if o.k != "" {
						rw.Header().Set(o.k, o.v)
					}
					if o.code != 0 {
						rw.WriteHeader(o.code)
					}
					if o.boom {
						panic("hook")
					}
				})
			}
			state(rw, o)
		}
	}
	a := c.IntN(len(ops) + 1)
	sp.Filter(func(ctx strip.Context, w http.ResponseWriter) {
		run(w.(strip.ResponseWriter), ops[:a])
		if !ctx.Written() {
			ctx.Next()
		}
	})
	after := false
	sp.Routers(strip.Get(func(w http.ResponseWriter) { after = true; run(w.(strip.ResponseWriter), ops[a:]) }))
	c.Note("ops %v split at %d, flusher %v, failing %v", ops, a, flusher, s.fail)
	boom := survive(func() { sp.ServeHTTP(under, h.Req("GET", "/")) })
	_ = after
	m.commit()
	if boom != !m.committed {
		c.Fail("hook-panic", "the request ended with a panic: %v, with the header sent: %v", boom, m.committed)
	}
	if boom {
		c.Count("panics at the end", 1)
		if len(s.ev) > 0 {
			c.Fail("hook-panic", "something was sent: %v", s.ev)
		}
		return
	}
	c.Eval(1)
	c.Sig("%v %d %v", ops, a, flusher)
	c.Count("ops", len(ops))
	c.Count("hooks", len(ran))
	if len(s.codes) != 1 || s.codes[0] != m.code {
		c.Fail("status-line", "status lines sent %v, expected one with %d (events %v)", s.codes, m.code, s.ev)
	}
	if !reflect.DeepEqual(s.sent, m.sent) {
		c.Fail("headers", "headers sent %v, expected %v", s.sent, m.sent)
	}
	if !bytes.Equal(s.body.Bytes(), m.body) {
		c.Fail("body", "body %q, expected %q", s.body.Bytes(), m.body)
	}
	if strings.Join(ran, " ") != strings.Join(m.ran, " ") {
		c.Fail("hooks", "hooks ran %v, expected %v", ran, m.ran)
	}
}

type srv struct {
	ts  *httptest.Server
	cur func(rw strip.ResponseWriter)
	got func(rw strip.ResponseWriter)
}

// real drives the same operations through a real server and client.
func real(s *srv) func(c *h.C) {
	return func(c *h.C) {
		ops := genOps(c, true)
		hijack := c.Chance(5)
		raw := "HTTP/1.1 299 Raw\r\nContent-Length: 3\r\nConnection: close\r\n\r\nraw"
		m := &model{hdr: http.Header{}}
		var final [2]int
		done := make(chan struct{})
		s.cur = func(rw strip.ResponseWriter) {
			defer close(done)
			if hijack {
				conn, buf, err := rw.Hijack()
				if err != nil {
					c.Fail("hijack", "%v", err)
					return
				}
				buf.WriteString(raw)
				buf.Flush()
				conn.Close()
				return
			}
			for _, o := range ops {
				o := o
				switch o.kind {
				case "set":
					rw.Header().Set(o.k, o.v)
					m.hdr.Set(o.k, o.v)
				case "add":
					rw.Header().Add(o.k, o.v)
					m.hdr.Add(o.k, o.v)
				case "del":
					rw.Header().Del(o.k)
					m.hdr.Del(o.k)
				case "status":
					rw.WriteHeader(o.code)
					if !m.committed {
						m.status = o.code
					}
				case "zero":
					zero(rw)
				case "write":
					rw.Write(o.data)
					m.commit()
					m.body = append(m.body, o.data...)
				case "flush":
					rw.Flush()
					m.commit()
				case "before":
					if !m.committed {
						m.hooks = append(m.hooks, o)
					}
					rw.Before(func(rw strip.ResponseWriter) {
						if o.k != "" {
							rw.Header().Set(o.k, o.v)
						}
						if o.code != 0 {
							rw.WriteHeader(o.code)
						}
					})
				}
			}
			final = [2]int{rw.Status(), rw.Size()}
		}
		c.Note("ops %v hijack %v", ops, hijack)
		c.Sig("real %v %v", ops, hijack)
		resp, err := client.Get(s.ts.URL + "/")
		if err != nil {
			c.Fatal("client", "client: %v", err)
		}
		body, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		<-done
		if err != nil {
			c.Fatal("client", "reading the body: %v", err)
		}
		c.Count("real", 1)
		if hijack {
			if resp.StatusCode != 299 || string(body) != "raw" {
				c.Fail("hijacked", "got %d %q", resp.StatusCode, body)
			}
			return
		}
		committed := m.committed
		m.commit()
		if m.code == 204 || m.code == 304 {
			m.body = nil
		}
		if resp.StatusCode != m.code {
			c.Fail("real-status", "client got %d, expected %d", resp.StatusCode, m.code)
		}
		if !bytes.Equal(body, m.body) {
			c.Fail("real-body", "client got %d bytes, expected %d", len(body), len(m.body))
		}
		for _, k := range []string{"X-A", "X-B", "X-C", "X-H"} {
			if !reflect.DeepEqual(resp.Header[k], m.sent[k]) {
				c.Fail("real-headers", "%s: client got %q, expected %q", k, resp.Header[k], m.sent[k])
			}
		}
		if committed && (final[0] != resp.StatusCode || final[1] != len(body)) {
			c.Fail("real-report", "reported status and size %v, client got %d and %d", final, resp.StatusCode, len(body))
		}
	}
}

// interfaces the wrapper passes on.
func ifaces(c *h.C) {
	sp, _ := h.NewApp()
	hj := false
	sp.Routers(strip.Get(func(w http.ResponseWriter) {
		rw := w.(strip.ResponseWriter)
		_, _, err := rw.Hijack()
		hj = err == nil
		w.WriteHeader(202)
	}))
	s := &sink{hdr: http.Header{}}
	sp.ServeHTTP(s, h.Req("GET", "/"))
	if hj || len(s.codes) != 1 || s.codes[0] != 202 {
		c.Fail("nohijack", "hijacking a plain writer: ok=%v codes %v", hj, s.codes)
	}
	// a writer that refuses is written to as any other
	f := refusing{&sink{hdr: http.Header{}}}
	sp.ServeHTTP(f, h.Req("GET", "/"))
	if hj || len(f.codes) != 1 || f.codes[0] != 202 {
		c.Fail("refused", "a refused hijack: ok=%v codes %v", hj, f.codes)
	}
	c.Count("ifaces", 1)
}

type refusing struct{ *sink }

func (refusing) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return nil, nil, http.ErrNotSupported
}

var client = &http.Client{Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}

var _ = bufio.NewReader
var _ net.Conn
var _ = sort.Strings

func main() {
	h.Main(h.Spec{
		ID:          "C07",
		Rule:        "random sequences of header set/add/delete, status, writes, flushes and before-write hooks split over a filter and an action, against a recording writer (with and without flushing, with short writes) and against a real server and client; every event on the real writer and the reported status, written flag and size after every operation are compared with a reference response. Distinct by operation sequence.",
		Assumptions: []string{"status codes are 200-599; hooks do not write bodies"},
		Run: func(r *h.R) {
			log.SetOutput(io.Discard)
			r.Par("unit", r.N(6250, 200000), unit)
			r.Loop("unit", r.N(25000, 800000), unit)
			r.Loop("ifaces", 1, ifaces)
			s := &srv{}
			sp, _ := h.NewApp()
			sp.Routers(strip.Get(func(w http.ResponseWriter) { s.cur(w.(strip.ResponseWriter)) }))
			s.ts = httptest.NewUnstartedServer(sp)
			s.ts.Config.ErrorLog = log.New(io.Discard, "", 0)
			s.ts.Start()
			defer s.ts.Close()
			r.Loop("real", r.N(3000, 60000), real(s))
		},
		Min:         map[string]int64{"ops": 50000, "hooks": 5000, "real": 2000},
		MinDistinct: 10000,
	})
}
