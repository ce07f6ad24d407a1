package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing/iotest"

	"github.com/wujiu2020/strip/config"
	"stripverif/h"
)

// model: section -> key -> value; a section exists once it is named.
type model map[string]map[string]string

func (m model) set(sec, k, v string) {
	if m[sec] == nil {
		m[sec] = map[string]string{}
	}
	m[sec][k] = v
}

var wordRunes = []rune("abcXYZ019 ._-%$/\\'~!中国é\u3000\u00a0\t")

func word(c *h.C, extra string, max int) string {
	var b strings.Builder
	n := 1 + c.IntN(max)
	rs := append(wordRunes, []rune(extra)...)
	for i := 0; i < n; i++ {
		if c.Chance(2) {
			b.WriteByte(byte(0x80 + c.IntN(0x80))) // invalid UTF-8
			continue
		}
		b.WriteRune(rs[c.IntN(len(rs))])
	}
	return b.String()
}

func pad(c *h.C) string { return c.Pick("", "", " ", "\t", "  ", " \t ") }

// notDash keeps quoted keys apart from the unnamed key.
func notDash(s string) string {
	if s == "-" {
		return "--"
	}
	return s
}

type gen struct {
	c     *h.C
	m     model
	sec   string
	count int
	keys  []string // texts of keys used, to force reassignment
	kinds map[string]bool
	secs  []string
}

func newGen(c *h.C) *gen {
	return &gen{c: c, m: model{}, sec: "default", count: 1, kinds: map[string]bool{}}
}

// key gives the text of a key and the key it denotes.
func (g *gen) key() (text, key string) {
	c := g.c
	switch c.IntN(10) {
	case 0, 1:
		g.kinds["unnamed"] = true
		key = fmt.Sprintf("#%d", g.count)
		g.count++
		return "-", key
	case 2:
		key = notDash(word(c, "=:`#;[]", 8))
		if c.Chance(10) {
			key = "  edge  "
		}
		g.kinds["key\""] = true
		return `"` + key + `"`, key
	case 3:
		key = notDash(word(c, "=:\"#;[]", 8))
		g.kinds["key`"] = true
		return "`" + key + "`", key
	case 4:
		key = notDash(word(c, "=:\"`#;", 8))
		for strings.Contains(key, `"""`) || strings.HasSuffix(key, `"`) {
			key = strings.ReplaceAll(key, `"`, "q")
		}
		g.kinds["key3"] = true
		return `"""` + key + `"""`, key
	}
	if len(g.keys) > 0 && c.Chance(40) {
		key = g.keys[c.IntN(len(g.keys))]
		g.kinds["again"] = true
		return key, key
	}
	if len(g.keys) > 0 && c.Chance(15) { // another key but for its case
		key = otherCase(g.keys[c.IntN(len(g.keys))])
		g.keys = append(g.keys, key)
		g.kinds["case"] = true
		return key, key
	}
	for {
		key = strings.TrimSpace(word(c, "\"`#;[]", 8))
		if key == "" || key == "-" || strings.ContainsAny(key[:1], "\"`#;[") || key[0] >= 0x80 && c.Chance(50) {
			continue
		}
		break
	}
	g.keys = append(g.keys, key)
	return key, key
}

// otherCase changes the case of ASCII letters
func otherCase(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r >= 'a' && r <= 'z':
			return r - 32
		case r >= 'A' && r <= 'Z':
			return r + 32
		}
		return r
	}, s)
}

func (g *gen) value() (text, value string) {
	c := g.c
	switch c.IntN(8) {
	case 0:
		g.kinds["empty"] = true
		return "", ""
	case 1:
		value = word(c, "=:`\"#;[]", 12)
		if c.Chance(10) {
			value = ""
		}
		g.kinds["val`"] = true
		return "`" + value + "`", value
	case 2:
		value = word(c, "=:`\"#;[]", 12)
		g.kinds["val3"] = true
		return `"""` + value + `"""`, value
	case 3:
		value = c.Pick(`"quoted"`, `"special case`, `it "is"`, "a=b", "a:b:c", "x ; y", "x # y", "[x]", "v]", "a`b`", "=", ":", "#", ";", "-", `""`)
		g.kinds["special"] = true
		return value, value
	case 4:
		if c.Chance(10) {
			value = strings.Repeat(c.Pick("x", "long ", "中"), 2000+c.IntN(40000)) + "."
			g.kinds["long"] = true
			return value, value
		}
	}
	for {
		value = strings.TrimSpace(word(c, "=:#;[]\"", 12))
		if strings.HasPrefix(value, "`") || strings.HasPrefix(value, `"""`) {
			continue
		}
		return value, value
	}
}

// line gives one valid line and applies its effect.
func (g *gen) line() string {
	c := g.c
	switch c.IntN(12) {
	case 0:
		g.kinds["blank"] = true
		return c.Pick("", " ", "\t  ", "")
	case 1:
		g.kinds["comment"] = true
		return c.Pick("", "  ", "\t") + c.Pick("#", ";") + c.Pick("", " text", "a=b", "[sec]", " x:y", "`", "-=1")
	case 2, 3:
		var name string
		if len(g.secs) > 0 && c.Chance(30) {
			name = g.secs[c.IntN(len(g.secs))]
			g.kinds["resection"] = true
		} else if c.Chance(8) {
			name = c.Pick("default", "default", "DEFAULT", "Default", "global")
		} else if len(g.secs) > 0 && c.Chance(15) { // another section but for its case
			name = otherCase(g.secs[c.IntN(len(g.secs))])
			g.kinds["case"] = true
		} else {
			for name == "" {
				name = strings.TrimSpace(word(c, "=:`\"#;[]", 8))
			}
		}
		g.secs = append(g.secs, name)
		g.sec, g.count = name, 1
		if g.m[name] == nil {
			g.m[name] = map[string]string{}
		}
		g.kinds["section"] = true
		return pad(c) + "[" + pad(c) + name + pad(c) + "]" + pad(c)
	}
	kt, k := g.key()
	vt, v := g.value()
	g.m.set(g.sec, k, v)
	return pad(c) + kt + pad(c) + c.Pick("=", ":") + pad(c) + vt + pad(c)
}

// join writes the lines with line endings.
func join(c *h.C, lines []string, kinds map[string]bool) string {
	var b strings.Builder
	if c.Chance(25) {
		b.WriteString("\xef\xbb\xbf")
		kinds["bom"] = true
	}
	mode := c.IntN(3)
	for i, l := range lines {
		b.WriteString(l)
		if i == len(lines)-1 && c.Chance(50) {
			kinds["nofinal"] = true
			break
		}
		if mode == 1 || mode == 2 && c.Chance(50) {
			b.WriteString("\r\n")
			kinds["crlf"] = true
		} else {
			b.WriteString("\n")
		}
	}
	return b.String()
}

type failing struct {
	r   io.Reader
	err error
}

func (f failing) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if err == io.EOF {
		err = f.err
	}
	return n, err
}

// file is the same one in all cases, as long as they run one after another.
func file(c *h.C, name string) string {
	if strings.HasSuffix(c.Stage, "-at-once") {
		name += fmt.Sprint(c.Index)
	}
	return filepath.Join(c.Dir(), "tmp", name+".ini")
}

// load reads the text in one of the ways a text can be given.
func load(c *h.C, text string) (config.Configer, error) {
	switch c.IntN(6) {
	case 0:
		p := file(c, "a")
		if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
			c.Inconclusive("%v", err)
		}
		defer os.Remove(p)
		c.Count("files", 1)
		return config.LoadIniFile(p)
	case 1:
		return config.LoadIniFromReader(iotest.OneByteReader(strings.NewReader(text)))
	case 2:
		return config.LoadIniFromReader(iotest.DataErrReader(strings.NewReader(text)))
	case 3:
		return config.LoadIniFromReader(iotest.HalfReader(bytes.NewBufferString(text)))
	case 4:
		// a file and a reader together: the reader comes later
		p := file(c, "b")
		if err := os.WriteFile(p, nil, 0o600); err != nil {
			c.Inconclusive("%v", err)
		}
		defer os.Remove(p)
		return config.NewConfiger(config.Config{FileName: p, FileReader: strings.NewReader(text)})
	}
	return config.LoadIniFromReader(strings.NewReader(text))
}

func compare(c *h.C, conf config.Configer, m model, probes []string) {
	for sec, want := range m {
		got := conf.ListSection(sec)
		if got == nil {
			c.Fatal("section-missing", "section %q does not exist", sec)
		}
		for k, v := range want {
			g, ok := got[k]
			if !ok {
				c.Fatal("missing", "section %q lacks key %q = %q", sec, k, h.Short(v))
			}
			if g != v {
				c.Fatal("value", "section %q key %q = %q, want %q", sec, k, h.Short(g), h.Short(v))
			}
			name := sec + "::" + k
			if i := strings.Index(name, "::"); i == len(sec) && k != "" {
				if g := conf.Find(name); g != v {
					c.Fatal("find", "Find(%q) = %q, want %q", name, h.Short(g), h.Short(v))
				}
				c.Count("finds", 1)
			}
			if sec == "default" && k != "" && !strings.Contains(k, "::") {
				if g := conf.Find(k); g != v {
					c.Fatal("find", "Find(%q) = %q, want %q", k, h.Short(g), h.Short(v))
				}
				c.Count("finds", 1)
			}
		}
		for k, v := range got {
			if _, ok := want[k]; !ok {
				c.Fatal("extra", "section %q has key %q = %q that was not written", sec, k, h.Short(v))
			}
		}
	}
	for _, p := range probes {
		if m[p] == nil {
			if got := conf.ListSection(p); len(got) != 0 {
				c.Fatal("extra-section", "section %q exists with %q", p, got)
			}
		}
		for _, sec := range []string{"default", p, ""} {
			name := p
			if sec != "" {
				name = sec + "::" + p
			}
			if strings.Index(name, "::") != len(sec) && sec != "" || sec == "" && strings.Contains(name, "::") {
				continue
			}
			s := sec
			if s == "" {
				s = "default"
			}
			if got := conf.Find(name); got != m[s][p] {
				c.Fatal("probe", "Find(%q) = %q, want %q", name, h.Short(got), m[s][p])
			}
		}
	}
}

func probes(c *h.C, m model) []string {
	ps := []string{"", "-", "text", "sec", "#1", "#2", "#0", "x"}
	for s, kv := range m {
		ps = append(ps, " "+s, s+" ", strings.TrimSpace(s))
		for k := range kv {
			ps = append(ps, k, strings.TrimSpace(k), `"`+k+`"`)
			if len(ps) > 60 {
				return ps
			}
		}
	}
	return ps
}

func kindsOf(g *gen) string {
	s := ""
	for _, k := range []string{"unnamed", "key\"", "key`", "key3", "again", "empty", "val`", "val3", "special", "long", "blank", "comment", "section", "resection", "bom", "crlf", "nofinal", "case"} {
		if g.kinds[k] {
			s += k + ","
		}
	}
	return s
}

func valid(c *h.C) {
	g := newGen(c)
	n := 1 + c.IntN(14)
	if c.Chance(3) {
		n = 100 + c.IntN(200)
	}
	var lines []string
	for i := 0; i < n; i++ {
		lines = append(lines, g.line())
	}
	text := join(c, lines, g.kinds)
	c.Note("text %q", h.Short(text))
	conf, err := load(c, text)
	if err != nil {
		c.Fatal("refused", "valid text refused: %v\n%q", err, text)
	}
	compare(c, conf, g.m, probes(c, g.m))
	for k := range g.kinds {
		c.Count("with_"+strings.NewReplacer("\"", "dq", "`", "bq").Replace(k), 1)
	}
	c.Sig("%s %d %d %q", kindsOf(g), n, len(g.m), h.Short(text))
}

func badLine(c *h.C) (kind, text string) {
	k := c.Pick("k", "a b", "中")
	switch c.IntN(9) {
	case 0:
		return "no-separator", c.Pick("text", "a b c", "[open", "x]", "[", "]", "\"", "-", k)
	case 1:
		return "no-key", c.Pick("=", ":", "=x", ":x", "= x", "==", "=:")
	case 2:
		return "blank-section", c.Pick("[]", "[ ]", "[\t ]")
	case 3:
		return "open-key-quote", c.Pick(`"`+k+`=1`, "`"+k+"=1", `"""`+k+`"=12345`, `"""`+k+`""=1234`)
	case 4:
		return "open-value-quote", k + c.Pick("=", ":") + c.Pick("`x", "` x = y", `"""abcdef`, `"""abc"" `+"x")
	case 5:
		return "quoted-key-only", c.Pick(`"`+k+`"`, "`"+k+"`", `"""`+k+`"""`, `"a=b"`, "`a:b`")
	case 6:
		return "junk-after-key", c.Pick(`"`+k+`" junk = v`, "`"+k+"`x:v", `"""`+k+`""" "" = v`, `"a""b"=c`)
	case 7:
		return "empty-key", c.Pick(`""=v`, "``=v", `"" : x`, `"""""" = v`)
	}
	return "no-separator", strings.Repeat("word ", 1+c.IntN(2000))
}

func malformed(c *h.C) {
	g := newGen(c)
	var lines []string
	for i, n := 0, c.IntN(6); i < n; i++ {
		lines = append(lines, g.line())
	}
	at := len(lines)
	kind, bad := badLine(c)
	lines = append(lines, pad(c)+bad+pad(c))
	for i, n := 0, c.IntN(4); i < n; i++ {
		lines = append(lines, g.line())
	}
	text := join(c, lines, g.kinds)
	c.Note("line %d is bad (%s): %q\ntext %q", at, kind, h.Short(bad), h.Short(text))
	conf, err := load(c, text)
	if err == nil {
		c.Fatal("accepted-"+kind, "malformed line %q was accepted", h.Short(bad))
	}
	if conf != nil {
		c.Fatal("half-loaded", "a configuration came with the error %v", err)
	}
	if err.Error() == "" {
		c.Fatal("empty-error", "error without text")
	}
	c.Count("bad_"+kind, 1)
	c.Sig("%s %q", kind, h.Short(text))
}

func readErrors(c *h.C) {
	g := newGen(c)
	var lines []string
	for i, n := 0, c.IntN(6); i < n; i++ {
		lines = append(lines, g.line())
	}
	text := join(c, lines, g.kinds)
	boom := errors.New("boom")
	var r io.Reader = failing{strings.NewReader(text), boom}
	if c.Chance(30) {
		r = failing{iotest.DataErrReader(strings.NewReader(text)), boom}
	}
	conf, err := config.LoadIniFromReader(r)
	if !errors.Is(err, boom) || conf != nil {
		c.Fatal("read-error", "reading %q then failing gave %v, %v", h.Short(text), conf, err)
	}
	p := filepath.Join(c.Dir(), "tmp", "missing.ini")
	if conf, err := config.LoadIniFile(p); err == nil || !os.IsNotExist(err) || conf != nil {
		c.Fatal("missing-file", "loading a missing file gave %v, %v", conf, err)
	}
	if _, err := config.LoadIniFile(filepath.Join(c.Dir(), "tmp")); err == nil {
		c.Fatal("directory", "loading a directory succeeded")
	}
	c.Count("read_errors", 1)
	c.Sig("err %q", h.Short(text))
}

// arbitrary texts never panic, and what is accepted is what a strict reading allows.
func garbage(c *h.C) {
	var b strings.Builder
	n := c.IntN(60)
	al := []string{"=", ":", "[", "]", "\"", "`", `"""`, "#", ";", "\n", "\r\n", "\n", " ", "a", "b", "-", "\x00", "\xff", "中", "k=v\n"}
	for i := 0; i < n; i++ {
		b.WriteString(al[c.IntN(len(al))])
	}
	text := b.String()
	c.Note("text %q", text)
	conf, err := load(c, text)
	if err != nil {
		c.Count("garbage_refused", 1)
		return
	}
	c.Count("garbage_accepted", 1)
	// every non-blank, non-comment line must have left a trace
	sec := "default"
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' || l[0] == ';' {
			continue
		}
		if l[0] == '[' && strings.HasSuffix(l, "]") {
			sec = strings.TrimSpace(l[1 : len(l)-1])
			if conf.ListSection(sec) == nil {
				c.Fatal("garbage-section", "section %q was dropped", sec)
			}
			continue
		}
		if len(conf.ListSection(sec)) == 0 {
			c.Fatal("garbage-dropped", "line %q was accepted but section %q is empty", l, sec)
		}
	}
	c.Sig("garbage %q", text)
}

func main() {
	h.Main(h.Spec{
		ID:          "C20",
		Rule:        "INI texts are generated together with the map they denote (plain, quoted and unnamed keys, plain and quoted values, sections reopened, comments, BOM, line endings, missing final newline, long lines, invalid UTF-8), loaded from files and from readers that split reads, and every section and key is compared with the map, with probes for anything else; each kind of malformed line is injected at random places and must be refused, as must failing readers; unstructured texts must not panic or lose lines",
		Assumptions: []string{"text after the closing quote of a value, and values that only start with a quote shorter than a quoted value, are not specified", "a quoted - is treated as unnamed by the code and not generated"},
		Min:         map[string]int64{"with_unnamed": 500, "with_bom": 500, "with_crlf": 500, "with_nofinal": 500, "with_resection": 200, "with_long": 20, "bad_no-separator": 100, "bad_no-key": 100, "bad_blank-section": 100, "bad_open-key-quote": 100, "bad_open-value-quote": 100, "bad_quoted-key-only": 100, "bad_junk-after-key": 100, "bad_empty-key": 100, "read_errors": 200, "files": 500, "finds": 5000},
		MinDistinct: 3000,
		Run: func(r *h.R) {
			tmp := os.TempDir()
			os.Clearenv()
			os.Setenv("TMPDIR", tmp)
			r.Par("valid", r.N(1500, 50000), valid)
			r.Loop("valid", r.N(6000, 200000), valid)
			r.Par("malformed", r.N(1000, 15000), malformed)
			r.Loop("malformed", r.N(4000, 60000), malformed)
			r.Loop("read-errors", r.N(400, 4000), readErrors)
			r.Par("garbage", r.N(1500, 75000), garbage)
			r.Loop("garbage", r.N(6000, 300000), garbage)
		},
	})
}
