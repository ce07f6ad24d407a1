package main

import (
	"bytes"
	"errors"
	"fmt"
	"log"
	"os"
	"reflect"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/wujiu2020/strip"
	"stripverif/h"
)

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

var tags = []string{"[EMERGENCY]", "[ALERT]", "[CRITCIAL]", "[ERROR]", "[WARN]", "[NOTICE]", "[INFO]", "[DEBUG]"}

// model is what one logger should do.
type model struct {
	log    strip.LoggerAdv
	sink   *h.LogSink
	prefix string
	req    string // request id prefix
	level  int
	flat   bool
	color  bool
	line   bool
	short  bool
	stack  int
	parser int
	depth  int // callers above the place of the call
	isReq  bool
}

func newModel(c *h.C, i int) *model {
	m := &model{sink: &h.LogSink{}, level: 8, flat: true}
	if c.Chance(40) {
		id := fmt.Sprintf("req%d", i)
		m.log, m.req, m.isReq = strip.NewReqLogger(m.sink, id), "["+id+"]", true
		if got := m.log.(strip.ReqLogger).ReqId(); got != id {
			c.Fatal("reqid", "%q", got)
		}
	} else {
		m.log = strip.NewLogger(m.sink)
	}
	return m
}

// parsers of prefixes out of the values.
var parsers = []strip.PrefixParser{
	nil,
	func(v []interface{}) (string, []interface{}) { return "<p>", v },
	func(v []interface{}) (string, []interface{}) {
		if len(v) > 0 {
			if s, ok := v[0].(pfx); ok {
				return string(s), v[1:]
			}
		}
		return "", v
	},
}

type pfx string

func (m *model) set(c *h.C) {
	switch c.IntN(10) {
	case 9:
		m.depth = c.IntN(3)
		m.log.SetFuncDepth(4 + m.depth)
	case 0:
		m.prefix = c.Pick("", "[pre]", "x%d", "a\nb", strings.Repeat("longprefix", 1+c.IntN(80)))
		m.log.SetPrefix(m.prefix)
	case 1, 2:
		m.level = 1 + c.IntN(8)
		m.log.SetLevel(strip.Level(m.level))
	case 3:
		m.flat = c.Chance(50)
		m.log.SetFlatLine(m.flat)
	case 4:
		m.color = c.Chance(50)
		m.log.SetColorMode(m.color)
	case 5:
		m.line = c.Chance(60)
		m.log.SetLineInfo(m.line)
	case 6:
		m.short = c.Chance(50)
		m.log.SetShortLine(m.short)
	case 7:
		m.stack = c.IntN(9)
		m.log.EnableLogStack(strip.Level(m.stack))
	case 8:
		m.parser = c.IntN(len(parsers))
		m.log.SetPrefixParser(parsers[m.parser])
	}
}

type stringer struct{ s string }

func (s stringer) String() string { return "S:" + s.s }

func value(c *h.C) any {
	switch c.IntN(12) {
	case 0:
		return c.IntN(1000) - 500
	case 1:
		return c.Pick("", "hello", "two\nlines", "trail\n", "\n", "a%sb", "ünïcode", "tab\tx", "cr\rx", strings.Repeat("long", 300), strings.Repeat("line\n", 150), "a PANIC b", "x STACK", "PANIC here", "STACK of", "no panic: PANIC", "\nPANIC below", "Panic not", "PANI C")
	case 2:
		return 1.5
	case 3:
		return nil
	case 4:
		return errors.New(c.Pick("bad", "very\nbad"))
	case 5:
		return []string{"a", "b"}
	case 6:
		return map[string]int{"k": 1}
	case 7:
		return stringer{"x"}
	case 8:
		return true
	case 9:
		return struct{ A, B int }{1, 2}
	case 10:
		return []byte("by")
	default:
		return 'r'
	}
}

// call makes one logging call and reports the values, its text and its place.
func call(c *h.C, l strip.Logger, level int, format bool, f string, v []any) (place string) {
	_, file, line, _ := runtime.Caller(0)
	at := func(n int) string { return fmt.Sprintf("%s:%d", file, line+n) }
	// the calls stay on these lines
	switch {
	case format && level == 1:
		l.Emergencyf(f, v...)
		return at(5)
	case format && level == 2:
		l.Alertf(f, v...)
		return at(8)
	case format && level == 3:
		l.Critcialf(f, v...)
		return at(11)
	case format && level == 4:
		l.Errorf(f, v...)
		return at(14)
	case format && level == 5:
		l.Warnf(f, v...)
		return at(17)
	case format && level == 6:
		l.Noticef(f, v...)
		return at(20)
	case format && level == 7:
		l.Infof(f, v...)
		return at(23)
	case format:
		l.Debugf(f, v...)
		return at(26)
	case level == 1:
		l.Emergency(v...)
		return at(29)
	case level == 2:
		l.Alert(v...)
		return at(32)
	case level == 3:
		l.Critcial(v...)
		return at(35)
	case level == 4:
		l.Error(v...)
		return at(38)
	case level == 5:
		l.Warn(v...)
		return at(41)
	case level == 6:
		l.Notice(v...)
		return at(44)
	case level == 7:
		l.Info(v...)
		return at(47)
	default:
		l.Debug(v...)
		return at(50)
	}
}

// nested calls through two more functions and reports all three places.
func nested(c *h.C, l strip.Logger, level int, format bool, f string, v []any) (places [3]string) {
	through := func() {
		_, file, line, _ := runtime.Caller(0)
		places[1] = fmt.Sprintf("%s:%d", file, line+2)
		places[0] = call(c, l, level, format, f, v)
	}
	_, file, line, _ := runtime.Caller(0)
	places[2] = fmt.Sprintf("%s:%d", file, line+2)
	through()
	return
}

// expect is the record of a message.
func (m *model) head(level int, parsed string) string {
	p := m.prefix
	if m.isReq {
		p = m.req + m.prefix
	}
	return tags[level-1] + p + parsed
}

func flatten(s string) string {
	return strings.ReplaceAll(strings.TrimSuffix(s, "\n"), "\n", "\\n")
}

// match checks one record. stack tells whether a stack has to follow.
func (m *model) match(c *h.C, rec string, level int, parsed, msg, place string, line, stack bool) {
	raw := rec
	if m.flat && strings.Contains(rec, "\n") {
		c.Fatal("multiline", "a record in flat mode has several lines: %q", h.Short(rec))
	}
	if m.color {
		if !ansi.MatchString(rec) {
			c.Fatal("color", "no colour in %q", h.Short(rec))
		}
		rec = ansi.ReplaceAllString(rec, "")
	} else if ansi.MatchString(rec) {
		c.Fatal("color", "unwanted colour in %q", h.Short(rec))
	}
	flat := func(s string) string {
		if m.flat {
			return strings.ReplaceAll(s, "\n", "\\n")
		}
		return s
	}
	head := flat(m.head(level, parsed))
	if !strings.HasPrefix(rec, head) {
		c.Fatal("head", "record %q, want it to start with %q", h.Short(rec), head)
	}
	rec = rec[len(head):]
	if line {
		if !strings.HasPrefix(rec, `["`) {
			c.Fatal("line-info", "no line in %q", h.Short(raw))
		}
		i := strings.Index(rec, `"]`)
		if i < 0 {
			c.Fatal("line-info", "no line in %q", h.Short(raw))
		}
		got := rec[2:i]
		want := place
		if m.short {
			if j := strings.Index(want, "/src/"); j >= 0 {
				want = want[j+5:]
			}
		}
		if place != "" && got != want {
			c.Fatal("line-info", "logged as coming from %q, it comes from %q", got, want)
		}
		rec = rec[i+2:]
		c.Count("places", 1)
	}
	if !strings.HasPrefix(rec, " ") {
		c.Fatal("format", "record %q", h.Short(raw))
	}
	rec = rec[1:]
	if !stack {
		want := msg
		if m.flat {
			want = flatten(msg)
		}
		if rec != want {
			c.Fatal("message", "message %q, want %q", h.Short(rec), h.Short(want))
		}
		return
	}
	c.Count("stacks", 1)
	if !strings.HasPrefix(rec, flat(msg+"\n")) {
		c.Fatal("message", "message %q, want it to start with %q", h.Short(rec), h.Short(flat(msg+"\n")))
	}
	rec = rec[len(flat(msg+"\n")):]
	if place != "" && !strings.Contains(rec, place) {
		c.Fatal("stack", "the stack does not show %s:\n%s", place, rec)
	}
	showsSource(c, rec, place)
}

// showsSource checks that the text of the place follows it, where it can be read.
func showsSource(c *h.C, rec, place string) {
	if place == "" {
		return
	}
	i := strings.LastIndexByte(place, ':')
	n, _ := strconv.Atoi(place[i+1:])
	lines, ok := sources[place[:i]]
	if !ok {
		b, _ := os.ReadFile(place[:i])
		lines = strings.Split(string(b), "\n")
		sources[place[:i]] = lines
	}
	if n < 1 || n > len(lines) {
		c.Count("stacks_without_source", 1)
		return
	}
	if src := strings.TrimSpace(lines[n-1]); !strings.Contains(rec[strings.Index(rec, place):], src) {
		c.Fatal("stack-source", "the stack does not show the text %q of %s:\n%s", src, place, rec)
	}
	c.Count("sources", 1)
}

var sources = map[string][]string{}

func sequence(c *h.C) {
	global := 8
	defer func() { strip.GlobalLevel = strip.LevelDebug }()
	strip.GlobalLevel = strip.LevelDebug
	n := 1 + c.IntN(4)
	ms := make([]*model, n)
	if c.Chance(30) { // the level of a logger does not come from the time it is made at
		strip.GlobalLevel = strip.Level(1 + c.IntN(8))
		if c.Chance(50) {
			global = int(strip.GlobalLevel)
		}
	}
	for i := range ms {
		ms[i] = newModel(c, i)
	}
	strip.GlobalLevel = strip.Level(global)
	steps := 5 + c.IntN(30)
	emitted := 0
	for s := 0; s < steps; s++ {
		switch k := c.IntN(10); {
		case k == 0:
			global = 1 + c.IntN(8)
			strip.GlobalLevel = strip.Level(global)
			c.Note("global level %d", global)
		case k < 3:
			m := ms[c.IntN(n)]
			m.set(c)
			c.Note("set %+v", *m)
		case k == 3:
			m := ms[c.IntN(n)]
			rec(c, m, global)
		default:
			m := ms[c.IntN(n)]
			level := 1 + c.IntN(8)
			var v []any
			f, format := "", c.Chance(50)
			var msg string
			if format {
				for i, k := 0, c.IntN(4); i < k; i++ {
					v = append(v, value(c))
				}
				f = c.Pick("", "plain", "%v", "a %v b %v", "%d|%s|%q", "nl\n%v\n", "100%%", "%v\n", "%!", "said PANIC %v", "PANIC: %v", "STACK %v", " PANIC %v")
				msg = fmt.Sprintf(f, v...)
			} else {
				for i, k := 0, c.IntN(5); i < k; i++ {
					v = append(v, value(c))
				}
				msg = fmt.Sprintln(v...)
			}
			parsed := ""
			args := v
			switch m.parser {
			case 1:
				parsed = "<p>"
			case 2:
				if c.Chance(50) {
					args = append([]any{pfx("<q>")}, v...)
					parsed = "<q>"
				}
			}
			opt := strip.LineOpt{}
			withOpt := c.Chance(25)
			if withOpt {
				opt = strip.LineOpt{Stack: c.Chance(40), Hidden: c.Chance(50), Depth: c.IntN(3 - m.depth)}
				args = append(append([]any{}, args...), opt)
			}
			before := append([]any{}, args...)
			for _, x := range ms {
				x.sink.Reset()
			}
			places := nested(c, m.log, level, format, f, args)
			place := places[m.depth+opt.Depth]
			if m.depth+opt.Depth > 0 {
				c.Count("deeper", 1)
			}
			c.Eval(1)
			if !reflect.DeepEqual(before, args) && fmt.Sprint(before) != fmt.Sprint(args) {
				c.Fatal("args", "the arguments were changed")
			}
			c.Note("level %d format %v %q %q opt %+v (%v) to %+v", level, format, f, v, opt, withOpt, *m)
			want := level <= m.level && level <= global
			for _, x := range ms {
				r := x.sink.All()
				if x != m && len(r) > 0 {
					c.Fatal("other", "another logger emitted %q", r)
				}
				if x != m {
					continue
				}
				if want != (len(r) > 0) || len(r) > 1 {
					c.Fatal("emitted", "%d records; severity %d, logger level %d, global level %d", len(r), level, m.level, global)
				}
			}
			if !want {
				c.Count("suppressed", 1)
				continue
			}
			emitted++
			c.Count("emitted", 1)
			stack := (m.stack >= level || opt.Stack) && !(strings.HasPrefix(msg, "PANIC") || strings.HasPrefix(msg, "STACK"))
			m.match(c, m.sink.All()[0], level, parsed, msg, place, m.line && !opt.Hidden, stack)
			c.Sig("%d %v %q %+v %v %v %v %v %d %d %v", level, format, msg, opt, m.flat, m.color, m.line, m.stack, m.parser, m.level, m.isReq)
		}
	}
}

// rec recovers a function on the logger.
func rec(c *h.C, m *model, global int) {
	var want any
	kind := c.IntN(11)
	place := ""
	here := func() {
		_, file, line, _ := runtime.Caller(1)
		place = fmt.Sprintf("%s:%d", file, line+1)
	}
	calls := 0
	f := func() {
		calls++
		switch kind {
		case 0:
			return
		case 1:
			want = "text"
			here()
			panic("text")
		case 2:
			want = errors.New("oops")
			here()
			panic(want)
		case 3:
			want = 42
			here()
			panic(42)
		case 4:
			var p map[string]int
			want = "assignment to entry in nil map"
			here()
			p["x"] = 1
		case 5:
			var a []int
			want = "index out of range"
			here()
			a[kind]++
		case 6:
			want = struct{ A string }{"multi\nline"}
			here()
			panic(want)
		case 7:
			want = stringer{"v"}
			func() {
				here()
				panic(want)
			}()
		case 9:
			want = "made"
			generated(here, want)
		case 10:
			want = "elsewhere"
			elsewhere(here, want)
		case 8:
			defer func() {
				recover()
			}()
			panic("inner")
		}
	}
	level := 4
	m.sink.Reset()
	var got any
	func() {
		defer func() {
			if e := recover(); e != nil {
				c.Fatal("escaped", "Recover let %v through", e)
			}
		}()
		if c.Chance(50) {
			level = 1 + c.IntN(8)
			got = m.log.Recover(f, strip.Level(level))
		} else {
			got = m.log.Recover(f)
		}
	}()
	c.Eval(1)
	c.Count("recovers", 1)
	c.Note("recover kind %d level %d on %+v", kind, level, *m)
	if calls != 1 {
		c.Fatal("calls", "the function ran %d times", calls)
	}
	rs := m.sink.All()
	if want == nil {
		if got != nil || len(rs) > 0 {
			c.Fatal("no-panic", "without panic it returned %v and logged %q", got, rs)
		}
		return
	}
	if kind == 4 || kind == 5 {
		e, ok := got.(runtime.Error)
		if !ok || !strings.Contains(e.Error(), want.(string)) {
			c.Fatal("panic-value", "returned %v", got)
		}
	} else if got != want {
		c.Fatal("panic-value", "returned %v, it panicked with %v", got, want)
	}
	if on := level <= m.level && level <= global; on != (len(rs) == 1) || len(rs) > 1 {
		c.Fatal("recover-logged", "%d records; severity %d, logger level %d, global level %d", len(rs), level, m.level, global)
	} else if !on {
		return
	}
	// the parser may add to the prefix
	parsed := ""
	if m.parser == 1 {
		parsed = "<p>"
	}
	flat := *m
	flat.match(c, rs[0], level, parsed, fmt.Sprintln(got), "", m.line, true)
	if m.depth == 0 && !strings.Contains(rs[0], place) {
		c.Fatal("recover-place", "the record does not show the place %s of the panic:\n%s", place, rs[0])
	}
	if m.depth == 0 {
		showsSource(c, rs[0], place)
	}
	c.Count("recover_logged", 1)
}

// printers: one record per call on a standard logger, from many goroutines.
func concurrent(c *h.C) {
	var buf syncBuf
	std := log.New(&buf, "<", 0)
	lg := strip.NewLogger(std)
	lg.SetPrefix("[conc]")
	lg.SetLineInfo(c.Chance(50))
	lg.SetColorMode(c.Chance(30))
	lg.SetLevel(strip.LevelNotice)
	workers, per := 2+c.IntN(7), 30
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				lg.Warnf("m-%d-%d\nsecond", w, i)
				lg.Infof("hidden %d", i)
				if i%7 == 0 {
					lg.Recover(func() { panic(fmt.Sprintf("r-%d-%d", w, i)) })
				}
			}
		}()
	}
	wg.Wait()
	lines := strings.Split(strings.TrimSuffix(buf.b.String(), "\n"), "\n")
	seen := map[string]int{}
	re := regexp.MustCompile(`\b([mr]-\d+-\d+)`)
	for _, l := range lines {
		l = ansi.ReplaceAllString(l, "")
		if !strings.HasPrefix(l, "<[WARN][conc]") && !strings.HasPrefix(l, "<[ERROR][conc]") {
			c.Fatal("torn", "line %q", h.Short(l))
		}
		k := re.FindString(l)
		seen[k]++
	}
	want := workers * (per + (per+6)/7)
	if len(seen) != want || len(lines) != want {
		c.Fatal("concurrent-records", "%d lines with %d different messages, want %d", len(lines), len(seen), want)
	}
	c.Count("concurrent_records", want)
	c.Sig("conc %d %d", workers, c.Index)
}

type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func main() {
	if v := os.Getenv("C29_SEED"); v != "" {
		seed, _ := strconv.ParseUint(v, 10, 64)
		speak(seed, os.Getenv("C29_FILE"))
	}
	h.Main(h.Spec{
		ID:   "C29",
		Rule: "sequences of up to 35 steps over one to four loggers (plain and request loggers): setting prefix, prefix parser, level, flat, colour, line and short line modes and stack level, changing the global level, and calls of all 16 logging methods with values of 12 kinds, formats and line options, or Recover of functions panicking in eight ways or not at all; every record of every logger is compared with a model, including the place named by line info and the place of the panic in the stack. Concurrent calls on one logger. The global logger, used directly, through contexts, and by applications that chose it in all modes, in processes of their own. Distinct by call and options.",
		Assumptions: []string{
			"levels are the eight defined ones; a flat record has no line feed (other control characters may remain)",
			"messages beginning with PANIC or STACK carry their own stack and get no second one",
		},
		Run: func(r *h.R) {
			r.Loop("sequence", r.N(2500, 200000), sequence)
			r.Loop("concurrent", r.N(30, 1000), concurrent)
			r.Loop("global", r.N(100, 3000), global)
		},
		Min:         map[string]int64{"emitted": 8000, "suppressed": 4000, "recovers": 2000, "recover_logged": 800, "stacks": 1000, "places": 800, "deeper": 800, "concurrent_records": 2000, "global records": 300},
		MinDistinct: 5000,
	})
}
