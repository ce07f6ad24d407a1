package h

import (
	"bytes"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"
)

// LogSink collects log records; it is safe for concurrent use.
type LogSink struct {
	mu   sync.Mutex
	Recs []string
}

func (l *LogSink) Print(v ...interface{}) {
	s := ""
	for _, x := range v {
		if t, ok := x.(string); ok {
			s += t
		}
	}
	l.mu.Lock()
	l.Recs = append(l.Recs, s)
	l.mu.Unlock()
}

// All returns the records so far.
func (l *LogSink) All() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.Recs...)
}

// Reset drops the records.
func (l *LogSink) Reset() { l.mu.Lock(); l.Recs = nil; l.mu.Unlock() }

// NewApp makes an application that logs into the returned sink.
func NewApp() (*strip.Strip, *LogSink) {
	sp := strip.New()
	sink := &LogSink{}
	sp.SetLogger(strip.NewLogger(sink))
	return sp, sink
}

// Req makes a server side request with exactly this path.
func Req(method, path string, body ...string) *http.Request {
	var b io.Reader = http.NoBody
	if len(body) > 0 {
		b = bytes.NewBufferString(body[0])
	}
	r := httptest.NewRequest("GET", "http://example.com/", b)
	r.Method = method
	r.URL = &url.URL{Path: path}
	r.RequestURI = r.URL.RequestURI()
	return r
}

// Serve runs the request and returns the recorded response.
func Serve(sp http.Handler, req *http.Request) *httptest.ResponseRecorder {
	rec := httptest.NewRecorder()
	sp.ServeHTTP(rec, req)
	return rec
}

// Short shortens a text for messages.
func Short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// Panics returns the first line of every panic record.
func Panics(recs []string) (out []string) {
	for _, r := range recs {
		i := strings.Index(r, "PANIC")
		if i < 0 {
			continue
		}
		r = r[i:]
		if j := strings.Index(r, "\\n"); j > 0 {
			r = r[:j]
		}
		if j := strings.Index(r, "\n"); j > 0 {
			r = r[:j]
		}
		out = append(out, r)
	}
	return
}
