package fake

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// A small evaluator for the Lua that redis scripts of a few lines use:
// local x = e (also several, also without value); if e then ... elseif ... else ... end; return [e];
// redis.call(...); KEYS[n]; ARGV[n]; strings, numbers, nil, true, false;
// == ~= < > <= >= not and or + - * / % .. #; tonumber(e), tostring(e),
// math.floor/min/max, {list}, {err = e}, redis.error_reply and status_reply.  redis.call errors end the script.

type luaTok struct {
	k string // id num str op eof
	s string
}

type lua struct {
	toks       []luaTok
	p          int
	keys, argv []string
	vars       map[string]any
	call       func([]string) any
}

type luaReturn struct{ v any }
type luaError struct{ err error }

func runLua(src string, keys, argv []string, call func([]string) any) (v any, err error) {
	defer func() {
		switch e := recover().(type) {
		case nil:
		case luaReturn:
			v = e.v
			switch t := v.(type) {
			case bool:
				if t {
					v = int64(1)
				} else {
					v = nil
				}
			case float64:
				v = int64(t)
			case rStatus, rErr, int64, string, nil, []any:
			case int:
				v = int64(t)
			}
		case luaError:
			err = e.err
		default:
			panic(e)
		}
	}()
	l := &lua{keys: keys, argv: argv, vars: map[string]any{}, call: call}
	l.lex(src)
	l.block(true)
	if l.peek().k != "eof" {
		l.fail("unexpected %q", l.peek().s)
	}
	return nil, nil
}

func (l *lua) fail(f string, a ...any) { panic(luaError{fmt.Errorf(f, a...)}) }

func (l *lua) lex(s string) {
	id := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	dig := func(c byte) bool { return c >= '0' && c <= '9' }
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ';':
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case id(c):
			j := i
			for j < len(s) && (id(s[j]) || dig(s[j])) {
				j++
			}
			l.toks = append(l.toks, luaTok{"id", s[i:j]})
			i = j
		case dig(c):
			j := i
			for j < len(s) && (dig(s[j]) || s[j] == '.') {
				j++
			}
			l.toks = append(l.toks, luaTok{"num", s[i:j]})
			i = j
		case c == '"' || c == '\'':
			j := strings.IndexByte(s[i+1:], c)
			if j < 0 {
				l.fail("unfinished string")
			}
			l.toks = append(l.toks, luaTok{"str", s[i+1 : i+1+j]})
			i += j + 2
		default:
			op := string(c)
			if i+1 < len(s) {
				switch s[i : i+2] {
				case "==", "~=", "<=", ">=", "..":
					op = s[i : i+2]
				}
			}
			if !strings.Contains("== ~= <= >= < > ( ) [ ] { } , . - + * / % = .. : #", op) {
				l.fail("unexpected %q", op)
			}
			l.toks = append(l.toks, luaTok{"op", op})
			i += len(op)
		}
	}
	l.toks = append(l.toks, luaTok{"eof", ""})
}

func (l *lua) peek() luaTok { return l.toks[l.p] }
func (l *lua) next() luaTok { t := l.toks[l.p]; l.p++; return t }
func (l *lua) is(s string) bool {
	t := l.peek()
	return (t.k == "id" || t.k == "op") && t.s == s
}
func (l *lua) accept(s string) bool {
	if l.is(s) {
		l.p++
		return true
	}
	return false
}
func (l *lua) expect(s string) {
	if !l.accept(s) {
		l.fail("expected %q, have %q", s, l.peek().s)
	}
}

func truth(v any) bool { return v != nil && v != false }

// block runs statements until end, else, elseif or the end of the text; with
// run false it only reads them.
func (l *lua) block(run bool) {
	for l.peek().k != "eof" && !l.is("end") && !l.is("else") && !l.is("elseif") {
		switch {
		case l.accept("local"):
			names := []string{l.next().s}
			for l.accept(",") {
				names = append(names, l.next().s)
			}
			vals := make([]any, len(names))
			if l.accept("=") {
				for i := 0; ; i++ {
					v := l.expr(run)
					if i < len(vals) {
						vals[i] = v
					}
					if !l.accept(",") {
						break
					}
				}
			}
			if run {
				for i, n := range names {
					l.vars[n] = vals[i]
				}
			}
		case l.accept("return"):
			var v any
			if l.peek().k != "eof" && !l.is("end") && !l.is("else") && !l.is("elseif") {
				v = l.expr(run)
			}
			if run {
				panic(luaReturn{v})
			}
		case l.accept("if"):
			done := false
			c := l.expr(run)
			l.expect("then")
			take := run && truth(c)
			l.block(take)
			done = take
			for l.accept("elseif") {
				c := l.expr(run && !done)
				l.expect("then")
				take := run && !done && truth(c)
				l.block(take)
				done = done || take
			}
			if l.accept("else") {
				l.block(run && !done)
			}
			l.expect("end")
		default:
			if l.peek().k == "id" && l.toks[l.p+1].k == "op" && l.toks[l.p+1].s == "=" {
				name := l.next().s
				l.next()
				v := l.expr(run)
				if run {
					l.vars[name] = v
				}
				continue
			}
			l.expr(run)
		}
	}
}

func (l *lua) expr(run bool) any {
	v := l.and(run)
	for l.accept("or") {
		w := l.and(run && !truth(v))
		if !truth(v) {
			v = w
		}
	}
	return v
}

func (l *lua) and(run bool) any {
	v := l.cmp(run)
	for l.accept("and") {
		w := l.cmp(run && truth(v))
		if truth(v) {
			v = w
		}
	}
	return v
}

func (l *lua) cmp(run bool) any {
	v := l.concat(run)
	for _, op := range []string{"==", "~=", "<=", ">=", "<", ">"} {
		if l.accept(op) {
			w := l.concat(run)
			if !run {
				return nil
			}
			if op == "==" || op == "~=" {
				return (norm(v) == norm(w)) == (op == "==")
			}
			if x, ok := v.(string); ok {
				if y, ok := w.(string); ok {
					switch op {
					case "<":
						return x < y
					case ">":
						return x > y
					case "<=":
						return x <= y
					}
					return x >= y
				}
			}
			a, ok1 := norm(v).(float64)
			b, ok2 := norm(w).(float64)
			if !ok1 || !ok2 {
				// an error of the script, as in redis
				panic(luaReturn{rErr("ERR attempt to compare two values of different types")})
			}
			switch op {
			case "<":
				return a < b
			case ">":
				return a > b
			case "<=":
				return a <= b
			}
			return a >= b
		}
	}
	return v
}

// number reads a number, also from text as Lua does.
func (l *lua) number(v any) float64 {
	switch t := norm(v).(type) {
	case float64:
		return t
	case string:
		if f, err := strconv.ParseFloat(strings.TrimSpace(t), 64); err == nil {
			return f
		}
	}
	panic(luaReturn{rErr(fmt.Sprintf("ERR attempt to perform arithmetic on a %T value", v))})
}

func luaText(v any) (string, bool) {
	switch t := norm(v).(type) {
	case string:
		return t, true
	case float64:
		if t == math.Trunc(t) && math.Abs(t) < 1e15 {
			return strconv.FormatFloat(t, 'f', -1, 64), true
		}
		return strconv.FormatFloat(t, 'g', 14, 64), true
	}
	return "", false
}

func (l *lua) concat(run bool) any {
	v := l.sum(run)
	for l.accept("..") {
		w := l.sum(run)
		if !run {
			continue
		}
		a, ok1 := luaText(v)
		b, ok2 := luaText(w)
		if !ok1 || !ok2 {
			panic(luaReturn{rErr("ERR attempt to concatenate a wrong value")})
		}
		v = a + b
	}
	return v
}

func (l *lua) sum(run bool) any {
	v := l.product(run)
	for l.is("+") || l.is("-") {
		op := l.next().s
		w := l.product(run)
		if !run {
			continue
		}
		if op == "+" {
			v = l.number(v) + l.number(w)
		} else {
			v = l.number(v) - l.number(w)
		}
	}
	return v
}

func (l *lua) product(run bool) any {
	v := l.unary(run)
	for l.is("*") || l.is("/") || l.is("%") {
		op := l.next().s
		w := l.unary(run)
		if !run {
			continue
		}
		a, b := l.number(v), l.number(w)
		switch op {
		case "*":
			v = a * b
		case "/":
			v = a / b
		default:
			v = a - math.Floor(a/b)*b
		}
	}
	return v
}

func norm(v any) any {
	switch t := v.(type) {
	case int64:
		return float64(t)
	case int:
		return float64(t)
	}
	return v
}

func (l *lua) unary(run bool) any {
	if l.accept("not") {
		return !truth(l.unary(run))
	}
	if l.accept("-") {
		v := l.unary(run)
		if !run {
			return nil
		}
		return -l.number(v)
	}
	if l.accept("#") {
		v := l.unary(run)
		switch t := v.(type) {
		case string:
			return float64(len(t))
		case []any:
			return float64(len(t))
		}
		if !run {
			return nil
		}
		l.fail("length of %T", v)
	}
	return l.primary(run)
}

func (l *lua) primary(run bool) any {
	t := l.next()
	switch t.k {
	case "str":
		return t.s
	case "num":
		f, err := strconv.ParseFloat(t.s, 64)
		if err != nil {
			l.fail("number %q", t.s)
		}
		return f
	case "op":
		if t.s == "{" {
			// a list, or err = / ok = of a reply
			list := []any{}
			var reply any
			for !l.is("}") {
				if l.peek().k == "id" && (l.is("err") || l.is("ok")) && l.toks[l.p+1].s == "=" {
					what := l.next().s
					l.next()
					text, _ := luaText(l.expr(run))
					reply = rStatus(text)
					if what == "err" {
						reply = rErr(text)
					}
				} else {
					list = append(list, l.expr(run))
				}
				if !l.accept(",") {
					break
				}
			}
			l.expect("}")
			if reply != nil {
				return reply
			}
			return list
		}
		if t.s == "(" {
			v := l.expr(run)
			l.expect(")")
			return v
		}
	case "id":
		switch t.s {
		case "nil":
			return nil
		case "true":
			return true
		case "false":
			return false
		case "KEYS", "ARGV":
			l.expect("[")
			i, _ := norm(l.expr(run)).(float64)
			l.expect("]")
			list := l.keys
			if t.s == "ARGV" {
				list = l.argv
			}
			if i < 1 || int(i) > len(list) {
				return nil
			}
			return list[int(i)-1]
		case "tostring":
			l.expect("(")
			v := l.expr(run)
			l.expect(")")
			if s, ok := luaText(v); ok {
				return s
			}
			if v == nil {
				return "nil"
			}
			return fmt.Sprint(v)
		case "math":
			l.expect(".")
			fn := l.next().s
			l.expect("(")
			var args []float64
			for !l.is(")") {
				if v := l.expr(run); run {
					args = append(args, l.number(v))
				}
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			if !run {
				return nil
			}
			switch {
			case fn == "floor" && len(args) == 1:
				return math.Floor(args[0])
			case fn == "max" && len(args) == 2:
				return math.Max(args[0], args[1])
			case fn == "min" && len(args) == 2:
				return math.Min(args[0], args[1])
			}
			l.fail("math.%s", fn)
		case "tonumber":
			l.expect("(")
			v := l.expr(run)
			l.expect(")")
			if s, ok := v.(string); ok {
				f, err := strconv.ParseFloat(s, 64)
				if err != nil {
					return nil
				}
				return f
			}
			return v
		case "redis":
			l.expect(".")
			fn := l.next().s
			l.expect("(")
			var args []string
			for !l.is(")") {
				switch v := l.expr(run).(type) {
				case string:
					args = append(args, v)
				case float64:
					if v == math.Trunc(v) && math.Abs(v) < 1e17 {
						args = append(args, strconv.FormatFloat(v, 'f', -1, 64))
					} else {
						args = append(args, strconv.FormatFloat(v, 'g', 17, 64))
					}
				case int64:
					args = append(args, strconv.FormatInt(v, 10))
				case int:
					args = append(args, strconv.Itoa(v))
				default:
					if run {
						l.fail("Lua redis() command arguments must be strings or integers")
					}
				}
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			if !run {
				return nil
			}
			if (fn == "error_reply" || fn == "status_reply") && len(args) == 1 {
				if fn == "error_reply" {
					return rErr(args[0])
				}
				return rStatus(args[0])
			}
			if fn != "call" && fn != "pcall" {
				l.fail("redis.%s", fn)
			}
			switch v := l.call(args).(type) {
			case rErr:
				if fn == "pcall" {
					return v
				}
				panic(luaReturn{v})
			case nil:
				return false
			case int:
				return int64(v)
			default:
				return v
			}
		default:
			if v, ok := l.vars[t.s]; ok {
				return v
			}
			if !run {
				return nil
			}
		}
	}
	l.fail("unexpected %q", t.s)
	return nil
}
