package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/wujiu2020/strip"
	"github.com/wujiu2020/strip/config"
	"github.com/wujiu2020/strip/utils/helpers"
	"stripverif/h"
)

type layer map[string]map[string]string // section -> key -> value

var (
	sections = []string{"", "", "db", "a b", "x.y", "Cache", "db:", "中"}
	keys     = []string{"name", "Name", "app.name", "app-name", "a b", "k1", "k:2", "name_x", "中"}
)

func name(sec, key string) string {
	if sec == "" {
		return key
	}
	return sec + "::" + key
}

// envKey is the documented environment name of a key.
func envKey(sec, key string) string {
	s := key
	if sec != "" {
		s = sec + "_" + key
	}
	s = strings.Map(func(r rune) rune {
		if r == '.' || r == '-' || r == ':' || r == ' ' {
			return '_'
		}
		return r
	}, s)
	return strings.ToUpper(s)
}

func genLayer(c *h.C, tag string) layer {
	l := layer{}
	n := c.IntN(12)
	if c.Chance(10) {
		for i, s := 0, sections[1+c.IntN(len(sections)-1)]; i < 20; i++ { // a long section
			if l[s] == nil {
				l[s] = map[string]string{}
			}
			l[s][fmt.Sprintf("long%d", i)] = fmt.Sprintf("%s-l%d", tag, i)
		}
	}
	for i := 0; i < n; i++ {
		s, k := sections[c.IntN(len(sections))], keys[c.IntN(len(keys))]
		v := fmt.Sprintf("%s-%d", tag, i)
		if c.Chance(12) {
			v = ""
		}
		if s == "" && c.Chance(20) {
			s = "default"
		}
		real := s
		if s == "default" {
			real = ""
		}
		if l[real] == nil {
			l[real] = map[string]string{}
		}
		l[real][k] = v
	}
	return l
}

func (l layer) text(c *h.C) string {
	var b strings.Builder
	for k, v := range l[""] {
		fmt.Fprintf(&b, "`%s` = %s\n", k, v)
	}
	for s, kv := range l {
		if s == "" {
			continue
		}
		fmt.Fprintf(&b, "[%s]\n", s)
		for k, v := range kv {
			fmt.Fprintf(&b, "`%s` = %s\n", k, v)
		}
	}
	return b.String()
}

// find is the reference lookup: layers from the most specific on.
func find(env map[string]string, layers []layer, sec, key string) string {
	if v := env[envKey(sec, key)]; v != "" {
		return v
	}
	if sec == "default" { // the entries before the first section
		sec = ""
	}
	for _, l := range layers {
		if v := l[sec][key]; v != "" {
			return v
		}
	}
	return ""
}

func setEnv(c *h.C, env map[string]string) {
	s, k := sections[c.IntN(len(sections))], keys[c.IntN(len(keys))]
	if c.Chance(15) {
		s = "default"
	}
	e := envKey(s, k)
	if strings.Contains(e, "=") {
		return
	}
	switch {
	case env[e] != "" && c.Chance(60):
		os.Unsetenv(e)
		delete(env, e)
	case c.Chance(15):
		os.Setenv(e, "")
		delete(env, e)
	default:
		env[e] = fmt.Sprintf("env-%d", c.IntN(1000))
		if c.Chance(25) {
			env[e] = c.Pick(" ", "\t", " x", "y ", "a=b", "\"q\"", "`", "a,b", "#c", "x\ny", "0", "false", "é")
		}
		os.Setenv(e, env[e])
	}
}

func clearEnv(env map[string]string) {
	for k := range env {
		os.Unsetenv(k)
	}
	for _, s := range append([]string{"default"}, sections...) {
		for _, k := range keys {
			os.Unsetenv(envKey(s, k))
		}
	}
}

func compare(c *h.C, where string, f func(string) string, app *strip.Config, env map[string]string, layers []layer) {
	for _, s := range append([]string{"none", "default"}, sections[1:]...) {
		for _, k := range append([]string{"absent"}, keys...) {
			if strings.HasSuffix(s, ":") {
				continue // "db:" + "::" + key is read as section "db"
			}
			if s == "" && strings.Contains(k, "::") {
				continue
			}
			n, want := name(s, k), find(env, layers, s, k)
			if got := f(n); got != want {
				c.Fatal("find", "%s: Find(%q) = %q, want %q", where, n, got, want)
			}
			if app != nil {
				def := fmt.Sprintf("def-%d", c.IntN(100))
				w := want
				if w == "" {
					w = def
				}
				if got := app.Find(n, def, "other"); got != w {
					c.Fatal("default", "%s: Config.Find(%q, %q) = %q, want %q", where, n, def, got, w)
				}
				if got := app.Find(n); got != want {
					c.Fatal("config-find", "%s: Config.Find(%q) = %q, want %q", where, n, got, want)
				}
				if got := app.Find(n, ""); got != want {
					c.Fatal("config-find", "%s: Config.Find(%q, \"\") = %q, want %q", where, n, got, want)
				}
				c.Count("with_default", 1)
			}
			c.Count("finds", 1)
			if want == "" {
				c.Count("unset", 1)
			} else if strings.HasPrefix(want, "env-") {
				c.Count("from_env", 1)
			} else if layers[0][strings.TrimPrefix(s, "default")][k] != want {
				c.Count("from_parent", 1)
			} else {
				c.Count("from_self", 1)
			}
		}
	}
	if f("") != "" || f("db::") != "" {
		c.Fatal("empty-key", "%s: a lookup without key gave a value", where)
	}
}

func list(c *h.C, conf config.Configer, l layer) {
	for _, s := range []string{"default", "db", "a b", "x.y", "Cache", "db:", "中", "none"} {
		m := s
		if s == "default" {
			m = ""
		}
		want := l[m]
		for i := 0; i < 2; i++ {
			got := conf.ListSection(s)
			if len(got) != len(want) {
				c.Fatal("list", "ListSection(%q) = %q, want %q", s, got, want)
			}
			for k, v := range want {
				if g, ok := got[k]; !ok || g != v {
					c.Fatal("list", "ListSection(%q) = %q, want %q", s, got, want)
				}
			}
			// what the caller does with the list stays with the caller
			for k := range got {
				got[k] = "changed"
			}
			if got != nil {
				got["added"] = "x"
				got["name"] = "y"
			}
			c.Count("lists", 1)
		}
	}
}

func stack(c *h.C) {
	env := map[string]string{}
	defer clearEnv(env)
	var layers []layer
	var confs []config.Configer
	n := 1 + c.IntN(5)
	for i := 0; i < n; i++ {
		l := genLayer(c, fmt.Sprintf("L%d", i))
		conf, err := config.LoadIniFromReader(strings.NewReader(l.text(c)))
		if err != nil {
			c.Inconclusive("%v", err)
		}
		layers, confs = append(layers, l), append(confs, conf)
		c.Note("layer %d: %q", i, l)
	}
	for i := 0; i+1 < n; i++ {
		confs[i].SetParent(confs[i+1])
	}
	app := strip.New()
	app.ImportConfig(confs[0])
	steps := 3 + c.IntN(4)
	for s := 0; s < steps; s++ {
		switch c.IntN(3) {
		case 0:
			for i := 0; i < 1+c.IntN(4); i++ {
				setEnv(c, env)
			}
		case 1:
			if len(confs) > 2 && c.Chance(40) {
				// another parent: the second layer drops out
				confs[0].SetParent(confs[2])
				layers = append(layers[:1:1], layers[2:]...)
				confs = append(confs[:1:1], confs[2:]...)
				c.Count("reparented", 1)
			}
		case 2:
			list(c, confs[0], layers[0])
			list(c, confs[len(confs)-1], layers[len(confs)-1])
		}
		c.Note("step %d env %q", s, env)
		compare(c, "stack", confs[0].Find, app.Config, env, layers)
		if len(confs) > 1 {
			compare(c, "parent", confs[1].Find, nil, env, layers[1:])
		}
	}
	c.Sig("stack %d %d %q %q", n, steps, env, layers)
}

// none: without a configuration every lookup is the caller's default.
func none(c *h.C) {
	app := strip.New()
	k, d := keys[c.IntN(len(keys))], fmt.Sprint(c.IntN(1000))
	if got := app.Config.Find(k, d); got != d {
		c.Fatal("default", "without configuration Find(%q, %q) = %q", k, d, got)
	}
	if got := app.Config.Find(k); got != "" {
		c.Fatal("default", "without configuration Find(%q) = %q", k, got)
	}
	c.Count("none", 1)
	c.Sig("none %s %s", k, d)
}

type Env struct {
	Name string `conf:"name"`
	App  string `conf:"app.name"`
	DB   struct {
		Name string `conf:"name"`
		K1   string `conf:"k1"`
	} `conf:"db"`
}

// files: the documented set of files in the directory of the program, the
// working directory and the given one.
func files(c *h.C) {
	env := map[string]string{}
	defer clearEnv(env)
	root := filepath.Join(c.Dir(), "tmp", fmt.Sprintf("f%s%d", c.Stage, c.Index))
	defer os.RemoveAll(root)
	bin, wd, dir := filepath.Join(root, "bin"), filepath.Join(root, "wd"), filepath.Join(root, "conf")
	dirs := []string{bin, wd, dir}
	arg := dir
	shape := c.IntN(5)
	switch shape {
	case 0: // the given directory is the working directory
		arg = wd
		dirs = []string{bin, wd}
	case 1: // none given
		arg = ""
		dirs = []string{bin, wd}
	case 2: // started in the directory of the program
		wd = bin
		dirs = []string{bin, dir}
	}
	for _, d := range []string{bin, wd, dir} {
		os.MkdirAll(d, 0o755)
	}
	old, err := os.Getwd()
	if err != nil {
		c.Inconclusive("%v", err)
	}
	if err := os.Chdir(wd); err != nil {
		c.Inconclusive("%v", err)
	}
	defer os.Chdir(old)
	arg0 := os.Args[0]
	os.Args[0] = filepath.Join(bin, "prog")
	defer func() { os.Args[0] = arg0 }()
	if shape == 3 {
		arg = filepath.Join("..", "conf") // relative to the working directory
	}
	mode := c.Pick("dev", "test", "prod", "custom")
	appName := c.Pick("app", "my-app", "default2")
	env0 := c.IntN(4)
	for i := 0; i < env0; i++ {
		setEnv(c, env)
	}
	var layers []layer // least specific first
	present := ""
	byPath := map[string]layer{}
	put := func(path string, chance int) {
		if !c.Chance(chance) {
			return
		}
		l := genLayer(c, strings.TrimPrefix(path, root))
		text := l.text(c)
		if c.Chance(6) {
			text = "broken line\n" + text // a file that cannot be read changes nothing
			c.Count("broken_files", 1)
		} else {
			layers = append(layers, l)
			byPath[path] = l
			c.Note("%s: %q", path, l)
		}
		if err := os.WriteFile(path, []byte(text), 0o600); err != nil {
			c.Inconclusive("%v", err)
		}
		present += "+" + strings.TrimPrefix(path, root)
		c.Count("files", 1)
	}
	chance := c.IntN(101)
	if c.Chance(6) {
		chance = 0
	}
	for _, base := range []string{"default", appName, "override"} {
		for _, d := range dirs {
			put(filepath.Join(d, base+".ini"), chance)
			put(filepath.Join(d, base+"."+mode+".ini"), chance)
			// files of other modes and names are not read
			if c.Chance(20) {
				os.WriteFile(filepath.Join(d, base+".othermode.ini"), []byte("name = wrong\n"), 0o600)
				os.WriteFile(filepath.Join(d, base+"x.ini"), []byte("name = wrong\n"), 0o600)
			}
		}
	}
	var add []string
	for i := 0; i < c.IntN(4); i++ {
		p := filepath.Join(root, fmt.Sprintf("add%d.ini", i))
		put(p, 75)
		add = append(add, p)
	}
	if c.Chance(30) { // a file named again counts at its last place
		var paths []string
		for p := range byPath {
			paths = append(paths, p)
		}
		sort.Strings(paths)
		for i := 0; i < 2 && len(paths) > 0; i++ {
			p := paths[c.IntN(len(paths))]
			add, layers = append(add, p), append(layers, byPath[p])
			c.Count("named_again", 1)
		}
	}
	c.Note("shape %d mode %s app %s dir %q wd %q add %q env %q", shape, mode, appName, arg, wd, add, env)
	for i, j := 0, len(layers)-1; i < j; i, j = i+1, j-1 {
		layers[i], layers[j] = layers[j], layers[i]
	}
	var global layer
	if c.Chance(40) { // counts only where there is no file
		global = genLayer(c, "global")
		g, err := config.LoadIniFromReader(strings.NewReader(global.text(c)))
		if err != nil {
			c.Inconclusive("%v", err)
		}
		old := config.Global
		config.Global = g
		defer func() { config.Global = old }()
		c.Note("global: %q", global)
		c.Count("global", 1)
	}
	if len(layers) == 0 {
		layers = []layer{{}}
		if global != nil {
			layers = []layer{global}
			c.Count("global_counts", 1)
		}
		c.Count("no_files", 1)
	}
	sp, _ := h.NewApp()
	sp.Config.RunMode = strip.Mode(mode)
	before := *sp.Config
	e := Env{Name: "old", App: "old"}
	e.DB.Name, e.DB.K1 = "old", "old"
	var conf config.Configer
	if c.Chance(70) {
		conf = helpers.LoadConfigFiles(sp, appName, &e, arg, add...)
	} else {
		helpers.LoadClassicEnv(sp, appName, &e, arg, add...)
	}
	if conf != nil {
		compare(c, "files", conf.Find, sp.Config, env, layers)
	} else {
		compare(c, "files", func(n string) string { return sp.Config.Find(n) }, sp.Config, env, layers)
	}
	for _, f := range []struct{ got, sec, key string }{{e.Name, "", "name"}, {e.App, "", "app.name"}, {e.DB.Name, "db", "name"}, {e.DB.K1, "db", "k1"}} {
		want := find(env, layers, f.sec, f.key)
		if want == "" {
			want = "old"
		}
		if f.got != want {
			c.Fatal("decoded", "environment struct field for %s = %q, want %q", name(f.sec, f.key), f.got, want)
		}
	}
	if sp.Config.RunMode != before.RunMode || sp.Config.HttpAddr != before.HttpAddr || sp.Config.HttpPort != before.HttpPort || sp.Config.RunPath != before.RunPath {
		c.Fatal("app-config", "the application's settings changed without being configured")
	}
	c.Count("loads", 1)
	c.Sig("files %d %s %s %s %q", shape, mode, appName, present, env)
}

// settings: run_path, run_mode, http_addr and http_port of the application.
func settings(c *h.C) {
	l := layer{"": {}}
	want := map[string]string{}
	envs := []string{"RUN_PATH", "RUN_MODE", "HTTP_ADDR", "HTTP_PORT"}
	for _, e := range envs {
		if c.Chance(40) {
			want[e] = "env" + fmt.Sprint(c.IntN(1000))
			os.Setenv(e, want[e])
			defer os.Unsetenv(e)
		}
	}
	wd, _ := os.Getwd()
	def := map[string]string{"RUN_PATH": wd, "RUN_MODE": "prod", "HTTP_ADDR": "127.0.0.1", "HTTP_PORT": "3000"}
	sp, _ := h.NewApp()
	state := func() map[string]string {
		return map[string]string{"RUN_PATH": sp.Config.RunPath, "RUN_MODE": string(sp.Config.RunMode), "HTTP_ADDR": sp.Config.HttpAddr, "HTTP_PORT": sp.Config.HttpPort}
	}
	for _, e := range envs {
		w := want[e]
		if w == "" {
			w = def[e]
		}
		if g := state()[e]; g != w {
			c.Fatal("setting", "new application has %s = %q, want %q", e, g, w)
		}
	}
	for _, e := range envs {
		if c.Chance(50) {
			v := "file" + fmt.Sprint(c.IntN(1000))
			l[""][strings.ToLower(e)] = v
			if want[e] == "" {
				want[e] = v
			}
		}
		if want[e] == "" {
			want[e] = def[e]
		}
	}
	conf, err := config.LoadIniFromReader(strings.NewReader(l.text(c)))
	if err != nil {
		c.Inconclusive("%v", err)
	}
	sp.ImportConfig(conf)
	for _, e := range envs {
		if g := state()[e]; g != want[e] {
			c.Fatal("setting", "after importing %q %s = %q, want %q", l, e, g, want[e])
		}
	}
	c.Count("settings", 1)
	c.Sig("settings %q", want)
}

func main() {
	h.Main(h.Spec{
		ID:          "C21",
		Rule:        "stacks of one to five generated layers whose entries overlap, with histories of environment changes, new parents and edits of returned lists; every known and unknown name is looked up after each step on every level, with and without default, against a reference lookup; sets of files in up to three directories (program, working, given; some equal) for random run modes, with absent, broken and additional files, against the documented order",
		Assumptions: []string{"an empty value counts as not defined, an empty environment variable as not set", "the given directory is not the program's own unless it is the working directory"},
		Min:         map[string]int64{"finds": 20000, "from_env": 1000, "from_parent": 1000, "from_self": 1000, "unset": 1000, "lists": 500, "reparented": 50, "files": 1000, "broken_files": 50, "loads": 300, "settings": 200, "none": 20, "no_files": 1, "global": 100, "global_counts": 1},
		MinDistinct: 700,
		Run: func(r *h.R) {
			tmp := os.TempDir()
			os.Clearenv()
			os.Setenv("TMPDIR", tmp)
			os.Chdir(tmp)
			r.Loop("none", r.N(50, 500), none)
			r.Loop("settings", r.N(300, 5000), settings)
			r.Loop("stack", r.N(600, 20000), stack)
			r.Loop("files", r.N(600, 20000), files)
		},
	})
}
