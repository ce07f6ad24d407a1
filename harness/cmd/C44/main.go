// C44: Run serves the application where it is configured, until its server ends.
package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"stripverif/h"
)

const patience = 20 * time.Second

var keys = []string{"HTTP_ADDR", "HTTP_PORT", "RUN_MODE", "RUN_PATH"}

// free finds a port nobody uses.
func free(c *h.C, host string) string {
	l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
	if err != nil {
		c.Inconclusive("no port: %v", err)
	}
	defer l.Close()
	_, port, _ := net.SplitHostPort(l.Addr().String())
	return port
}

// setting chooses where each value comes from.
type setting struct {
	env, conf, field string
}

func (s setting) value(def string) string {
	for _, v := range []string{s.field, s.conf, s.env} {
		if v != "" {
			return v
		}
	}
	return def
}

func spread(c *h.C, v string, other string) (s setting) {
	switch c.IntN(5) {
	case 0:
		s.env = v
	case 1:
		s.conf = v
	case 2:
		s.field = v
	case 3:
		s.env, s.conf = other, v
	case 4:
		s.env, s.conf, s.field = other, other, v
	}
	return
}

// make makes an application with these settings.
func newApp(c *h.C, addr, port, mode, path setting) (*strip.Strip, *h.LogSink) {
	for i, s := range []setting{addr, port, mode, path} {
		if s.env == "" {
			os.Unsetenv(keys[i])
		} else {
			os.Setenv(keys[i], s.env)
		}
	}
	sp := strip.New()
	for _, k := range keys {
		os.Unsetenv(k)
	}
	var ini strings.Builder
	for i, s := range []setting{addr, port, mode, path} {
		if s.conf != "" {
			fmt.Fprintf(&ini, "%s = %s\n", strings.ToLower(keys[i]), s.conf)
		}
	}
	conf, err := config.LoadIniFromReader(strings.NewReader(ini.String()))
	if err != nil {
		c.Inconclusive("%v", err)
	}
	sp.ImportConfig(conf)
	if addr.field != "" {
		sp.Config.HttpAddr = addr.field
	}
	if port.field != "" {
		sp.Config.HttpPort = port.field
	}
	if mode.field != "" {
		sp.Config.RunMode = strip.Mode(mode.field)
	}
	if path.field != "" {
		sp.Config.RunPath = path.field
	}
	sink := new(h.LogSink)
	log := strip.NewLogger(sink)
	log.SetColorMode(c.Chance(70))
	sp.SetLogger(log)
	return sp, sink
}

// settings: what New and ImportConfig make of environment and configuration.
func settings(c *h.C) {
	wd, _ := os.Getwd()
	addr := spread(c, c.Pick("127.0.0.1", "localhost", "0.0.0.0", "[::1]", "example.org"), "10.1.2.3")
	port := spread(c, fmt.Sprint(1+c.IntN(65535)), "1")
	mode := spread(c, c.Pick("dev", "test", "prod", "stage"), "other")
	path := spread(c, c.Pick("/srv/app", "/tmp/x y", "rel"), "/other")
	for _, s := range []*setting{&addr, &port, &mode, &path} {
		if c.Chance(25) {
			*s = setting{}
		}
	}
	sp, _ := newApp(c, addr, port, mode, path)
	got := []string{sp.Config.HttpAddr, sp.Config.HttpPort, string(sp.Config.RunMode), sp.Config.RunPath}
	want := []string{addr.value("127.0.0.1"), port.value("3000"), mode.value("prod"), path.value(wd)}
	c.Eval(1)
	c.Count("settings", 1)
	c.Sig("settings %v %v %v %v", addr, port, mode, path)
	for i := range got {
		if got[i] != want[i] {
			c.Fail("setting "+keys[i], "environment, configuration and field %v %v %v %v: %s is %q, want %q", addr, port, mode, path, keys[i], got[i], want[i])
		}
	}
	m := sp.Config.RunMode
	if m.IsDev() != (want[2] == "dev") || m.IsTest() != (want[2] == "test") || m.IsProd() != (want[2] == "prod") {
		c.Fail("mode", "mode %q: dev %v test %v prod %v", m, m.IsDev(), m.IsTest(), m.IsProd())
	}
}

type result struct {
	err error
	at  time.Time
}

func run(sp *strip.Strip) chan result {
	ch := make(chan result, 1)
	go func() {
		err := sp.Run()
		ch <- result{err, time.Now()}
	}()
	return ch
}

// ended waits for Run to return.
func ended(c *h.C, ch chan result) result {
	select {
	case r := <-ch:
		return r
	case <-time.After(patience):
		c.Fatal("does not return", "Run has not returned after %v", patience)
	}
	panic("")
}

var hosts = []struct{ addr, dial string }{
	{"127.0.0.1", "127.0.0.1"}, {"localhost", "localhost"}, {"0.0.0.0", "127.0.0.1"}, {"127.0.0.2", "127.0.0.2"}, {"[::1]", "::1"}, {"127.1.2.3", "127.1.2.3"},
}

var has6 = func() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		l.Close()
	}
	return err == nil
}()

func client() *http.Client {
	return &http.Client{Transport: &http.Transport{DisableKeepAlives: true}, Timeout: patience, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
}

// serve: an application that runs and ends.
func serve(c *h.C) {
	hst := hosts[c.IntN(len(hosts))]
	if hst.dial == "::1" && !has6 {
		hst = hosts[0]
	}
	var sp *strip.Strip
	var sink *h.LogSink
	var ch chan result
	var base string
	mode := c.Pick("dev", "test", "prod", "prod", "stage")
	enter, leave := make(chan bool, 1), make(chan bool)
	id := c.Index
	how := c.IntN(5)
	limit := c.Chance(30)
	up := false
	for try := 0; try < 5 && !up; try++ {
		port := free(c, hst.dial)
		as, ps := spread(c, hst.addr, "10.1.2.3"), spread(c, port, "1")
		sp, sink = newApp(c, as, ps, spread(c, mode, "other"), setting{})
		sp.Provide(&struct{ ID int }{id})
		sp.Filter(func(rw http.ResponseWriter) { rw.Header().Set("X-Filter", fmt.Sprint(id)) })
		sp.Routers(
			strip.Router("/a/:x", strip.Get(func(rw http.ResponseWriter, v *struct{ ID int }, ri *strip.RouteInfo) {
				fmt.Fprint(rw, v.ID, ri.Get("x"))
			})),
			strip.Router("/slow", strip.Get(func(rw http.ResponseWriter) {
				enter <- true
				<-leave
				fmt.Fprint(rw, "slow ", id)
			})),
			strip.Router("/echo", strip.Post(func(rw http.ResponseWriter, req *http.Request) { io.Copy(rw, req.Body) })),
		)
		if limit {
			sp.Server.MaxHeaderBytes = 1 << 12
		}
		if how == 4 {
			own := sp.Server.Handler
			sp.Server.Handler = http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
				rw.Header().Set("X-Around", "yes")
				own.ServeHTTP(rw, req)
			})
		}
		base = net.JoinHostPort(hst.dial, port)
		c.Note("address %v port %v mode %s, ends by %d, %s", as, ps, mode, how, base)
		switch c.IntN(5) {
		case 0:
			sp.Server.Addr = "127.0.0.1:1" // the address is the configured one
		case 1: // not at first
			if l, err := net.Listen("tcp", hst.addr+":0"); err == nil {
				_, taken, _ := net.SplitHostPort(l.Addr().String())
				last := sp.Config.HttpPort
				sp.Config.HttpPort = taken
				if r := ended(c, run(sp)); r.err == nil || errors.Is(r.err, http.ErrServerClosed) {
					c.Fatal("address in use", "at %s: %v", l.Addr(), r.err)
				}
				l.Close()
				sp.Config.HttpPort = last
				c.Count("again", 1)
			}
		}
		ch = run(sp)
		end := time.Now().Add(patience)
		for ; time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
			conn, err := net.DialTimeout("tcp", base, time.Second)
			if err == nil {
				conn.Close()
				up = true
				break
			}
			select {
			case r := <-ch:
				if !strings.Contains(fmt.Sprint(r.err), "in use") {
					c.Fatal("not running", "Run returned %v", r.err)
				}
				end = time.Time{} // somebody else took the port, try another
			default:
			}
		}
		if !up && !end.IsZero() {
			c.Fatal("not reachable", "no connection to %s while Run runs", base)
		}
	}
	if !up {
		c.Fatal("not reachable", "no connection to %s while Run runs", base)
	}
	c.Eval(1)
	c.Count("served", 1)
	c.Sig("serve %s %s %d %v", hst.addr, mode, how, limit)
	cl := client()
	get := func(path string) (int, string, http.Header) {
		resp, err := cl.Get("http://" + base + path)
		if err != nil {
			c.Fatal("request", "GET %s: %v", path, err)
		}
		defer resp.Body.Close()
		b, _ := io.ReadAll(resp.Body)
		return resp.StatusCode, string(b), resp.Header
	}
	for i := 1 + c.IntN(3); i > 0; i-- {
		code, body, hd := get(fmt.Sprint("/a/", i))
		if code != 200 || body != fmt.Sprint(id, i) && body != fmt.Sprintf("%d%d", id, i) || hd.Get("X-Filter") != fmt.Sprint(id) || (hd.Get("X-Around") == "yes") != (how == 4) {
			c.Fatal("answer", "GET /a/%d: %d %q %v", i, code, body, hd)
		}
	}
	if code, _, _ := get("/none"); code != 404 {
		c.Fatal("answer", "GET /none: %d", code)
	}
	payload := strings.Repeat("x", c.IntN(200000))
	resp, err := cl.Post("http://"+base+"/echo", "text/plain", strings.NewReader(payload))
	if err != nil {
		c.Fatal("request", "POST: %v", err)
	}
	b, _ := io.ReadAll(resp.Body)
	resp.Body.Close()
	if string(b) != payload {
		c.Fatal("answer", "POST of %d bytes is answered with %d", len(payload), len(b))
	}
	// a long header is accepted unless the server limits it
	conn, err := net.Dial("tcp", base)
	if err == nil {
		fmt.Fprintf(conn, "GET /a/1 HTTP/1.1\r\nHost: x\r\nConnection: close\r\nX-Long: %s\r\n\r\n", strings.Repeat("y", 30000))
		conn.SetReadDeadline(time.Now().Add(patience))
		resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
		conn.Close()
		if err == nil && (resp.StatusCode == 431) != limit {
			c.Fatal("server settings", "header of 30 KB with limit %v: %d", limit, resp.StatusCode)
		}
	}
	// only there: other addresses of this machine are not listened on
	if other := net.JoinHostPort("127.9.9.9", port(base)); strings.HasPrefix(hst.addr, "127.") {
		if conn, err := net.DialTimeout("tcp", other, time.Second); err == nil {
			conn.Close()
			c.Fatal("elsewhere", "configured for %s, reachable at %s", base, other)
		}
	}
	logs := strings.Join(sink.All(), "\n")
	if !strings.Contains(logs, port(base)) || !strings.Contains(logs, mode) {
		c.Fail("start log", "started at %s in mode %s, logged %q", base, mode, logs)
	}
	if mode != "dev" && strings.Contains(logs, "\x1b[") {
		c.Fail("colors", "mode %s logs with colors: %q", mode, logs)
	}
	select {
	case r := <-ch:
		c.Fatal("not running", "Run returned %v while serving", r.err)
	default:
	}
	// a second application for the same address is told so
	if c.Chance(40) {
		sp2, sink2 := newApp(c, setting{field: hst.addr}, setting{field: port(base)}, setting{}, setting{})
		r := ended(c, run(sp2))
		if r.err == nil || errors.Is(r.err, http.ErrServerClosed) {
			c.Fatal("address in use", "second application at %s: %v", base, r.err)
		}
		if s := strings.Join(sink2.All(), "\n"); !strings.Contains(s, r.err.Error()) {
			c.Fail("error log", "Run returned %v, logged %q", r.err, s)
		}
		c.Count("in use", 1)
	}
	n := len(sink.All())
	switch how {
	case 0, 4:
		sp.Server.Close()
	default: // while a request is on its way
		done := make(chan string, 1)
		go func() {
			resp, err := client().Get("http://" + base + "/slow")
			if err != nil {
				done <- err.Error()
				return
			}
			b, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			done <- fmt.Sprint(resp.StatusCode, " ", string(b), " ", err)
		}()
		select {
		case <-enter:
		case <-time.After(patience):
			c.Fatal("request", "GET /slow does not arrive")
		}
		ctx, cancel := context.WithTimeout(context.Background(), patience)
		defer cancel()
		down := make(chan error, 1)
		go func() { down <- sp.Server.Shutdown(ctx) }()
		r := ended(c, ch)
		ch <- r
		select {
		case s := <-done:
			c.Fatal("cut off", "the request ended with %q before its handler", s)
		case err := <-down:
			c.Fatal("cut off", "Shutdown returned %v before the handler", err)
		default:
		}
		close(leave)
		if s := <-done; s != fmt.Sprintf("200 slow %d <nil>", id) {
			c.Fatal("cut off", "the request that was on its way: %s", s)
		}
		if err := <-down; err != nil {
			c.Fatal("cut off", "Shutdown: %v", err)
		}
		c.Count("shut down", 1)
	}
	r := ended(c, ch)
	if !errors.Is(r.err, http.ErrServerClosed) {
		c.Fatal("result", "the server was closed, Run returned %v", r.err)
	}
	if after := sink.All()[n:]; !strings.Contains(strings.Join(after, "\n"), r.err.Error()) {
		c.Fail("error log", "Run returned %v, logged %q", r.err, after)
	}
	if conn, err := net.DialTimeout("tcp", base, time.Second); err == nil {
		// somebody else may have the port by now
		fmt.Fprintf(conn, "GET /a/1 HTTP/1.0\r\n\r\n")
		conn.SetReadDeadline(time.Now().Add(2 * time.Second))
		b, _ := io.ReadAll(conn)
		conn.Close()
		if bytes.Contains(b, []byte(fmt.Sprintf("X-Filter: %d\r", id))) {
			c.Fatal("still serving", "Run has returned and %s still answers", base)
		}
	}
}

func port(base string) string { _, p, _ := net.SplitHostPort(base); return p }

// refused: addresses nobody can listen on.
func refused(c *h.C) {
	addr, prt := c.Pick("127.0.0.1", "localhost", "10.255.255.1", "10.255.255.1", "[::1"), c.Pick("99999", "-1", "http/x", "no such", "70000")
	if strings.HasPrefix(addr, "127") || addr == "localhost" {
		c.Count("bad port", 1)
	} else {
		prt = free(c, "127.0.0.1")
		if addr == "10.255.255.1" {
			if l, err := net.Listen("tcp", addr+":"+prt); err == nil {
				l.Close()
				c.Skip()
			}
		}
	}
	sp, sink := newApp(c, spread(c, addr, "127.0.0.1"), spread(c, prt, "1"), setting{}, setting{})
	r := ended(c, run(sp))
	c.Eval(1)
	c.Count("refused", 1)
	c.Sig("refused %s %s", addr, prt)
	if r.err == nil || errors.Is(r.err, http.ErrServerClosed) {
		c.Fail("impossible address", "%s:%s: Run returned %v", addr, prt, r.err)
		return
	}
	if s := strings.Join(sink.All(), "\n"); !strings.Contains(s, r.err.Error()) {
		c.Fail("error log", "Run returned %v, logged %q", r.err, s)
	}
}

func main() {
	h.Main(h.Spec{
		ID:          "C44",
		Rule:        "applications whose address, port, mode and path come from environment, configuration or fields (with other values in the weaker places), run at loopback addresses, addressed over real connections, closed or shut down with a request on its way, a second one at the same address, and addresses nobody can listen on; distinct by settings and ending",
		Assumptions: []string{"the loopback network works; 127.0.0.0/8 is local"},
		Min:         map[string]int64{"settings": 1000, "served": 50, "refused": 20, "in use": 10, "again": 10, "shut down": 20},
		MinDistinct: 500,
		Run: func(r *h.R) {
			r.Loop("settings", r.N(3000, 60000), settings)
			r.Loop("serve", r.N(130, 3000), serve)
			r.Loop("refused", r.N(100, 1000), refused)
		},
	})
}
