// Package classic runs applications set up by the helpers LoadClassicFilters
// and LoadClassicProviders and records what clients and the log saw.
package classic

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/params"
	reqlogger "github.com/wujiu2020/strip/request-logger"
	"github.com/wujiu2020/strip/utils/helpers"
	"stripverif/h"
)

// Reply is one request and its outcome.
type Reply struct {
	Kind   string // text, status, bind, panic, none
	Token  string // unique in the log
	Sent   string // id given by the client
	Rec    *httptest.ResponseRecorder
	Escape any // panic that reached the server
	Seen   string
}

// Run is what one application did.
type Run struct {
	Mode    strip.Mode
	Dev     bool
	Replies []*Reply
	Log     string // without colours
	Hooked  int    // requests seen by the filter of a hook
	Hooks   int
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

type ctl struct {
	Log strip.Logger `inject`
}

func (t *ctl) Get(tok string) string { t.Log.Info("LINE " + tok); return "struct " + tok }

// Do sets an application up and sends requests to it.
func Do(c *h.C) *Run {
	out := &Run{Mode: []strip.Mode{strip.ModeDev, strip.ModeProd, strip.ModeTest, ""}[c.IntN(4)]}
	out.Dev = out.Mode == strip.ModeDev
	file, err := os.Create(filepath.Join(c.Dir(), fmt.Sprintf("classic-%s-%d.log", c.Stage, c.Index)))
	if err != nil {
		c.Inconclusive("log file: %v", err)
		c.Skip()
	}
	defer os.Remove(file.Name())
	defer file.Close()

	app, _ := h.NewApp()
	app.Config.RunMode = out.Mode
	var opts []interface{}
	for n := c.IntN(3); n > 0; n-- {
		out.Hooks++
		opts = append(opts, helpers.HookFunc(func(sp *strip.Strip, flag helpers.HookFlag) {
			if flag == helpers.HookFlagBeforeAll {
				sp.Filter(func() { out.Hooked++ })
			}
		}))
	}
	if c.Chance(40) {
		opts = append(opts, reqlogger.LoggerOption{LineInfo: c.Chance(50), FlatLine: c.Chance(50), ColorMode: c.Chance(30)})
		if len(opts) > 1 && c.Chance(50) {
			opts[0], opts[len(opts)-1] = opts[len(opts)-1], opts[0]
		}
	}
	std := os.Stderr
	os.Stderr = file
	if c.Chance(50) {
		helpers.LoadClassicProviders(app)
		helpers.LoadClassicFilters(app, opts...)
	} else {
		helpers.LoadClassicFilters(app, opts...)
		helpers.LoadClassicProviders(app)
	}
	os.Stderr = std

	app.Routers(
		strip.Router("text/:tok", strip.Get(func(info *strip.RouteInfo, log strip.Logger) string {
			log.Info("LINE " + info.Get("tok"))
			return "text " + info.Get("tok")
		})),
		strip.Router("status/:tok", strip.Get(func(info *strip.RouteInfo, log strip.ReqLogger) (string, int) {
			log.Info("LINE " + info.Get("tok"))
			return "status " + info.Get("tok"), 418
		})),
		strip.Router("bind/:tok", strip.Get(func(p *params.Params, log strip.Logger, req *http.Request) []byte {
			var n int
			var tok string
			p.Bind(&n, "n")
			p.Bind(&tok, "tok")
			log.Info("LINE " + tok)
			helpers.GetLogger(req.Context()).Info("LINE " + tok)
			return []byte(fmt.Sprintf("bind %s %d", tok, n))
		})),
		strip.Router("struct/:tok", strip.Get(&ctl{})),
		strip.Router("panic/:tok", strip.Get(func(info *strip.RouteInfo, log strip.Logger) string {
			log.Info("LINE " + info.Get("tok"))
			panic("BOOM<" + info.Get("tok") + ">")
		})),
	)
	for i := 0; i < 3+c.IntN(6); i++ {
		r := &Reply{Kind: c.Pick("text", "status", "bind", "struct", "panic", "none"), Token: fmt.Sprintf("tok%dx%d", c.Index, i)}
		req := h.Req("GET", "/"+r.Kind+"/"+r.Token)
		req.URL.RawQuery = "n=17"
		if c.Chance(40) {
			r.Sent = fmt.Sprintf("client-id-%d-%d", c.Index, i)
			req.Header.Set("X-Reqid", r.Sent)
		}
		r.Rec = httptest.NewRecorder()
		func() {
			defer func() { r.Escape = recover() }()
			app.ServeHTTP(r.Rec, req)
		}()
		out.Replies = append(out.Replies, r)
	}
	b, err := os.ReadFile(file.Name())
	if err != nil {
		c.Inconclusive("log file: %v", err)
		c.Skip()
	}
	out.Log = ansi.ReplaceAllString(string(b), "")
	c.Eval(len(out.Replies))
	c.Count("classic_requests", len(out.Replies))
	c.Sig("classic %s %d %d", out.Mode, len(opts), len(out.Replies))
	return out
}

// Lines returns the log lines with the text.
func (r *Run) Lines(text string) (out []string) {
	for _, l := range strings.Split(r.Log, "\n") {
		if strings.Contains(l, text) {
			out = append(out, l)
		}
	}
	return
}

// Panics checks what C08 states.
func Panics(c *h.C) {
	run := Do(c)
	for _, r := range run.Replies {
		if r.Escape != nil {
			c.Fail("classic-escaped", "the panic %v of %s reached the server", r.Escape, r.Kind)
			continue
		}
		body := r.Rec.Body.String()
		if r.Kind != "panic" {
			if r.Rec.Code == 500 {
				c.Fail("classic-affected", "%s answered with 500: %s", r.Kind, h.Short(body))
			}
			continue
		}
		c.Count("classic_panics", 1)
		if r.Rec.Code != 500 {
			c.Fail("classic-status", "status %d after a panic", r.Rec.Code)
		}
		if has := strings.Contains(body, r.Token); has != run.Dev {
			c.Fail("classic-page", "mode %q: panic value in the body %v: %s", run.Mode, has, h.Short(body))
		}
		if strings.Contains(body, "BOOM<") || !run.Dev && strings.Contains(body, "goroutine") {
			c.Fail("classic-page", "mode %q: body %s", run.Mode, h.Short(body))
		}
		id := r.Rec.Header().Get("X-Reqid")
		var got []string
		for _, l := range run.Lines(r.Token) {
			if strings.Contains(l, "PANIC:") {
				got = append(got, l)
			}
		}
		if len(got) != 1 || !strings.Contains(got[0], "["+id+"]") {
			c.Fail("classic-log", "the panic of request %s is logged as %q", id, got)
		}
	}
}

// Ids checks what C28 states.
func Ids(c *h.C) {
	run := Do(c)
	all := map[string]bool{}
	for _, r := range run.Replies {
		id := r.Rec.Header().Get("X-Reqid")
		if id == "" || all[id] || r.Sent != "" && id != r.Sent {
			c.Fail("classic-id", "%s answered with id %q, sent %q", r.Kind, id, r.Sent)
			continue
		}
		all[id] = true
		lines := run.Lines("LINE " + r.Token)
		want := map[string]int{"none": 0, "bind": 2}
		n, ok := want[r.Kind]
		if !ok {
			n = 1
		}
		if len(lines) != n {
			c.Fail("classic-lines", "%s: the handler's lines are %q", r.Kind, lines)
		}
		for _, l := range lines {
			if !strings.Contains(l, "["+id+"]") {
				c.Fail("classic-line-id", "request %s logged %q", id, l)
			}
		}
		beg, end := 0, 0
		for _, l := range run.Lines("[" + id + "]") {
			if strings.Contains(l, "[REQ_BEG] GET ") && strings.Contains(l, r.Token) {
				beg++
			}
			if strings.Contains(l, fmt.Sprintf("[REQ_END] %d ", r.Rec.Code)) {
				end++
			}
		}
		if beg != 1 || r.Kind != "panic" && end != 1 {
			c.Fail("classic-begin-end", "request %s has %d begin and %d end lines with status %d:\n%s", id, beg, end, r.Rec.Code, strings.Join(run.Lines(id), "\n"))
		}
		c.Count("classic_ids", 1)
	}
}

// Results checks what C30 states.
func Results(c *h.C) {
	run := Do(c)
	for _, r := range run.Replies {
		status, body := 200, r.Kind+" "+r.Token
		switch r.Kind {
		case "status":
			status = 418
		case "bind":
			body += " 17"
		case "panic", "none":
			continue
		}
		if r.Rec.Code != status || r.Rec.Body.String() != body {
			c.Fail("classic-result", "%s answered with %d %q, returned %d %q", r.Kind, r.Rec.Code, h.Short(r.Rec.Body.String()), status, body)
		}
		c.Count("classic_results", 1)
	}
}
