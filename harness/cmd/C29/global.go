package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/utils/helpers"
	"stripverif/h"
)

// said is a message given to the global logger, with where and how.
type said struct {
	Level      int
	Text, From string
	Via        string
	Use        bool
	Mode       string
}

// speak logs through the global logger in every way it can be had, in a process of its own.
func speak(seed uint64, file string) {
	r := rand.New(rand.NewPCG(seed, 1))
	var all []said
	modes := []strip.Mode{strip.ModeDev, strip.ModeTest, strip.ModeProd, "", "other"}
	mode, use := strip.Mode("unset"), false
	for range 1 + r.IntN(3) {
		app, _ := h.NewApp()
		if r.IntN(4) > 0 {
			mode, use = modes[r.IntN(len(modes))], true
			app.Config.RunMode = mode
			helpers.UseGlobalLogger(app)
		}
		var answer func(l strip.Logger)
		app.NotFound(func(l strip.Logger) { answer(l) })
		app.Routers(
			strip.Router("Logger", strip.Get(func(l strip.Logger) { answer(l) })),
			strip.Router("ReqLogger", strip.Get(func(l strip.ReqLogger) { answer(l) })),
			strip.Router("Find", strip.Get(func(ctx strip.Context) {
				var l strip.Logger
				ctx.Find(&l)
				answer(l)
			})),
		)
		used := app.Logger() == strip.Logger(helpers.X)
		for range 1 + r.IntN(6) {
			s := said{Level: 1 + r.IntN(8), Use: use, Mode: string(mode)}
			s.Text = fmt.Sprintf("text %d", r.IntN(1000)) + []string{"", "\nmore", " %d"}[r.IntN(3)]
			say := func(l strip.Logger) {
				if r.IntN(2) == 0 {
					s.From = call(nil, l, s.Level, false, "", []any{s.Text})
					s.Text += "\n"
				} else {
					s.From = call(nil, l, s.Level, true, "%s", []any{s.Text})
				}
			}
			n := r.IntN(7)
			if !used && n > 1 {
				n %= 2
			}
			switch n {
			case 0:
				s.Via = "X"
				say(helpers.X)
			case 1:
				s.Via = "context without logger"
				say(helpers.GetLogger(context.Background()))
			case 2:
				s.Via = "app"
				say(app.Logger())
			default:
				s.Via = []string{"Logger", "ReqLogger", "Find", "NotFound"}[n-3]
				path := "/" + s.Via
				answer = say
				h.Serve(app, h.Req(http.MethodGet, path))
			}
			all = append(all, s)
		}
	}
	b, _ := json.Marshal(all)
	os.WriteFile(file, b, 0o600)
	os.Exit(0)
}

var stamp = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d\.\d{6} `)

// global: the logger of the process.
func global(c *h.C) {
	exe, err := os.Executable()
	if err != nil {
		c.Inconclusive("%v", err)
	}
	file := filepath.Join(c.Dir(), fmt.Sprintf("said%d", c.Index))
	defer os.Remove(file)
	cmd := exec.Command(exe)
	cmd.Env = append(os.Environ(), "C29_SEED="+strconv.FormatUint(c.Uint64(), 10), "C29_FILE="+file)
	var out strings.Builder
	cmd.Stderr = &out
	if err := cmd.Run(); err != nil {
		c.Fatal("global-end", "logging through the global logger ended with %v: %s", err, h.Short(out.String()))
	}
	var all []said
	b, err := os.ReadFile(file)
	if err == nil {
		err = json.Unmarshal(b, &all)
	}
	if err != nil {
		c.Inconclusive("%v", err)
	}
	recs := stamp.Split(out.String(), -1)[1:]
	if len(recs) != len(all) {
		c.Fatal("global-records", "%d messages gave %d records:\n%s", len(all), len(recs), h.Short(out.String()))
	}
	host, _ := os.Hostname()
	for i, s := range all {
		m := &model{req: "[" + host + "]", isReq: true, level: 8, stack: 3, flat: true, short: true}
		if s.Use {
			m.flat, m.short, m.color = s.Mode == "prod", s.Mode == "prod", s.Mode == "dev"
		}
		c.Eval(1)
		c.Sig("global %d %s %v %q", s.Level, s.Via, s.Use, s.Mode)
		c.Count("global records", 1)
		c.Note("via %s level %d mode %q used %v: %q", s.Via, s.Level, s.Mode, s.Use, s.Text)
		rec := strings.TrimSuffix(recs[i], "\n")
		msg := s.Text
		if !m.flat && s.Level > m.stack {
			msg = strings.TrimSuffix(msg, "\n") // log ends lines once
		}
		m.match(c, rec, s.Level, "", msg, s.From, true, s.Level <= m.stack)
	}
}
