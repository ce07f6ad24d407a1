package fake

import (
	"bufio"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"net"
	"strconv"
	"strings"
	"time"
)

type rItem struct {
	val string
	exp time.Time
}

// Redis speaks RESP.
type Redis struct {
	others int // times the other databases were emptied
	server
	items   map[string]*rItem
	version map[string]int64 // counts the commands that wrote to a key
	scripts map[string]string
}

// NewRedis starts a server on a free loopback port.
func NewRedis() *Redis {
	s := &Redis{items: map[string]*rItem{}, version: map[string]int64{}, scripts: map[string]string{}}
	s.start(s.serve)
	return s
}

// NewRedisOn starts a server on a listener.
func NewRedisOn(ln net.Listener) *Redis {
	s := &Redis{items: map[string]*rItem{}, version: map[string]int64{}, scripts: map[string]string{}}
	s.startOn(ln, s.serve)
	return s
}

// Reset forgets everything.
func (s *Redis) Reset() {
	s.mu.Lock()
	s.items, s.version, s.others = map[string]*rItem{}, map[string]int64{}, 0
	s.mu.Unlock()
}

// Advance lets d pass for every stored deadline.
func (s *Redis) Advance(d time.Duration) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, it := range s.items {
		if !it.exp.IsZero() {
			it.exp = it.exp.Add(-d)
		}
	}
}

// Others tells how often the other databases of the server were emptied.
func (s *Redis) Others() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.others
}

// Keys lists the live keys.
func (s *Redis) Keys() (keys []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.items {
		if s.live(k) != nil {
			keys = append(keys, k)
		}
	}
	return
}

func (s *Redis) live(k string) *rItem {
	it := s.items[k]
	if it != nil && expired(it.exp) {
		delete(s.items, k)
		return nil
	}
	return it
}

type rErr string
type rStatus string

func readResp(r *bufio.Reader) ([]string, error) {
	num := func(p byte) (int, error) {
		line, err := r.ReadString('\n')
		if err != nil {
			return 0, err
		}
		if len(line) < 3 || line[0] != p {
			return 0, fmt.Errorf("bad line %q", line)
		}
		return strconv.Atoi(strings.TrimSpace(line[1:]))
	}
	n, err := num('*')
	if err != nil {
		return nil, err
	}
	args := make([]string, n)
	for i := range args {
		l, err := num('$')
		if err != nil {
			return nil, err
		}
		b := make([]byte, l+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args[i] = string(b[:l])
	}
	return args, nil
}

func writeResp(w *bufio.Writer, v any) {
	switch t := v.(type) {
	case nil:
		w.WriteString("$-1\r\n")
	case rErr:
		w.WriteString("-" + string(t) + "\r\n")
	case rStatus:
		w.WriteString("+" + string(t) + "\r\n")
	case int64:
		fmt.Fprintf(w, ":%d\r\n", t)
	case int:
		fmt.Fprintf(w, ":%d\r\n", t)
	case string:
		fmt.Fprintf(w, "$%d\r\n%s\r\n", len(t), t)
	case []any:
		fmt.Fprintf(w, "*%d\r\n", len(t))
		for _, x := range t {
			writeResp(w, x)
		}
	default:
		panic(fmt.Sprintf("reply %T", v))
	}
}

func (s *Redis) serve(c net.Conn) {
	r, w := bufio.NewReader(c), bufio.NewWriter(c)
	var queue [][]string
	multi, failed := false, false
	watched := map[string]int64{}
	for {
		args, err := readResp(r)
		if err != nil || len(args) == 0 {
			return
		}
		cmd := strings.ToUpper(args[0])
		if cmd == "PING" {
			writeResp(w, rStatus("PONG"))
			w.Flush()
			continue
		}
		op := Op{Name: cmd, Write: cmd != "GET" && cmd != "EXISTS" && cmd != "TTL"}
		switch {
		case cmd == "EVAL" && len(args) > 3:
			op.Key = args[3]
		case len(args) > 1:
			op.Key = args[1]
		}
		var reply any
		run := func() { reply = s.exec(args) }
		switch {
		case cmd == "MULTI":
			multi, failed, queue = true, false, nil
			run = func() { reply = rStatus("OK") }
		case cmd == "DISCARD":
			multi, watched = false, map[string]int64{}
			run = func() { reply = rStatus("OK") }
		case cmd == "WATCH":
			run = func() {
				for _, k := range args[1:] {
					s.live(k)
					watched[k] = s.version[k]
				}
				reply = rStatus("OK")
			}
		case cmd == "UNWATCH":
			watched = map[string]int64{}
			run = func() { reply = rStatus("OK") }
		case cmd == "EXEC":
			q, was, bad, seen := queue, multi, failed, watched
			multi, queue, watched = false, nil, map[string]int64{}
			run = func() {
				if !was {
					reply = rErr("ERR EXEC without MULTI")
					return
				}
				if bad {
					reply = rErr("EXECABORT Transaction discarded because of previous errors.")
					return
				}
				for k, v := range seen {
					s.live(k)
					if s.version[k] != v {
						reply = nil
						return
					}
				}
				all := []any{}
				for _, a := range q {
					all = append(all, s.exec(a))
				}
				reply = all
			}
		case multi:
			run = func() { reply = rStatus("QUEUED") }
			if _, ok := arity[cmd]; !ok {
				run = func() { failed = true; s.bad = append(s.bad, "MULTI "+cmd); reply = rErr("ERR unknown command") }
			} else {
				queue = append(queue, args)
			}
		}
		switch s.do(op, run) {
		case Err:
			writeResp(w, rErr("ERR injected"))
		case DropBefore, DropAfter:
			return
		default:
			writeResp(w, reply)
		}
		if w.Flush() != nil {
			return
		}
	}
}

// arity has the commands the server knows and the least number of words of each.
var arity = map[string]int{"GET": 2, "SET": 3, "SETEX": 4, "PSETEX": 4, "SETNX": 3, "GETSET": 3, "GETDEL": 2, "GETEX": 2,
	"MGET": 2, "MSET": 3, "APPEND": 3, "STRLEN": 2, "TYPE": 2, "TOUCH": 2, "EXPIRE": 3, "PEXPIRE": 3, "EXPIREAT": 3, "PEXPIREAT": 3,
	"PERSIST": 2, "INCRBY": 3, "DECRBY": 3, "INCR": 2, "DECR": 2, "TTL": 2, "PTTL": 2, "DEL": 2, "UNLINK": 2, "EXISTS": 2,
	"FLUSHDB": 1, "FLUSHALL": 1, "DBSIZE": 1, "EVAL": 3, "EVALSHA": 3, "SCRIPT": 2, "SELECT": 2, "ECHO": 2}

var reads = map[string]bool{"GET": true, "MGET": true, "STRLEN": true, "TYPE": true, "TOUCH": true, "TTL": true, "PTTL": true, "EXISTS": true, "DBSIZE": true, "EVAL": true, "EVALSHA": true, "SCRIPT": true, "SELECT": true, "ECHO": true}

const notInt = rErr("ERR value is not an integer or out of range")

func (s *Redis) exec(args []string) any {
	cmd := strings.ToUpper(args[0])
	if len(args) < arity[cmd] {
		return rErr("ERR wrong number of arguments for '" + strings.ToLower(cmd) + "' command")
	}
	if !reads[cmd] {
		for _, k := range args[1:] {
			s.version[k]++
		}
	}
	key := ""
	if len(args) > 1 {
		key = args[1]
	}
	switch cmd {
	case "SELECT":
		return rStatus("OK")
	case "GET":
		if it := s.live(key); it != nil {
			return it.val
		}
		return nil
	case "ECHO":
		return key
	case "MGET":
		var all []any
		for _, k := range args[1:] {
			all = append(all, s.exec([]string{"GET", k}))
		}
		return all
	case "MSET":
		if len(args)%2 == 0 {
			return rErr("ERR wrong number of arguments for MSET")
		}
		for i := 1; i < len(args); i += 2 {
			s.items[args[i]] = &rItem{val: args[i+1]}
		}
		return rStatus("OK")
	case "SETNX":
		if s.live(key) != nil {
			return 0
		}
		s.items[key] = &rItem{val: args[2]}
		return 1
	case "GETSET":
		old := s.exec([]string{"GET", key})
		s.items[key] = &rItem{val: args[2]}
		return old
	case "GETDEL":
		old := s.exec([]string{"GET", key})
		delete(s.items, key)
		return old
	case "GETEX":
		it := s.live(key)
		if it == nil {
			return nil
		}
		if len(args) == 3 && strings.ToUpper(args[2]) == "PERSIST" {
			it.exp = time.Time{}
		} else if len(args) == 4 {
			n, err := strconv.ParseInt(args[3], 10, 64)
			if err != nil {
				return notInt
			}
			it.exp = after(n, strings.HasPrefix(strings.ToUpper(args[2]), "P"))
		}
		return it.val
	case "APPEND":
		it := s.live(key)
		if it == nil {
			it = &rItem{}
			s.items[key] = it
		}
		it.val += args[2]
		return len(it.val)
	case "STRLEN":
		if it := s.live(key); it != nil {
			return len(it.val)
		}
		return 0
	case "TYPE":
		if s.live(key) != nil {
			return rStatus("string")
		}
		return rStatus("none")
	case "DBSIZE":
		n := 0
		for k := range s.items {
			if s.live(k) != nil {
				n++
			}
		}
		return n
	case "PSETEX":
		return s.exec([]string{"SET", key, args[3], "PX", args[2]})
	case "EXPIREAT", "PEXPIREAT":
		n, err := strconv.ParseInt(args[2], 10, 64)
		if err != nil {
			return notInt
		}
		it := s.live(key)
		if it == nil {
			return 0
		}
		at := time.Unix(n, 0)
		if cmd == "PEXPIREAT" {
			at = time.UnixMilli(n)
		}
		if !at.After(time.Now()) {
			delete(s.items, key)
			return 1
		}
		it.exp = at
		return 1
	case "SCRIPT":
		if strings.ToUpper(key) == "LOAD" && len(args) == 3 {
			sum := sha(args[2])
			s.scripts[sum] = args[2]
			return sum
		}
		if strings.ToUpper(key) == "EXISTS" {
			var all []any
			for _, k := range args[2:] {
				n := 0
				if _, ok := s.scripts[k]; ok {
					n = 1
				}
				all = append(all, n)
			}
			return all
		}
	case "EVALSHA":
		src, ok := s.scripts[strings.ToLower(key)]
		if !ok {
			return rErr("NOSCRIPT No matching script. Please use EVAL.")
		}
		return s.exec(append([]string{"EVAL", src}, args[2:]...))
	case "SETEX":
		return s.exec([]string{"SET", key, args[3], "EX", args[2]})
	case "SET":
		it := &rItem{val: args[2]}
		old := s.live(key)
		for i := 3; i < len(args); i++ {
			switch o := strings.ToUpper(args[i]); o {
			case "EX", "PX":
				i++
				if i >= len(args) {
					return rErr("ERR syntax error")
				}
				n, err := strconv.ParseInt(args[i], 10, 64)
				if err != nil {
					return notInt
				}
				if n <= 0 {
					return rErr("ERR invalid expire time in 'set' command")
				}
				it.exp = after(n, o == "PX")
			case "NX":
				if old != nil {
					return nil
				}
			case "XX":
				if old == nil {
					return nil
				}
			case "KEEPTTL":
				if old != nil {
					it.exp = old.exp
				}
			default:
				return rErr("ERR syntax error")
			}
		}
		s.items[key] = it
		return rStatus("OK")
	case "EXPIRE", "PEXPIRE":
		n, err := strconv.ParseInt(args[2], 10, 64)
		if err != nil {
			return notInt
		}
		it := s.live(key)
		if it == nil {
			return 0
		}
		if n <= 0 {
			delete(s.items, key)
			return 1
		}
		it.exp = after(n, cmd == "PEXPIRE")
		return 1
	case "PERSIST":
		it := s.live(key)
		if it == nil || it.exp.IsZero() {
			return 0
		}
		it.exp = time.Time{}
		return 1
	case "TTL", "PTTL":
		it := s.live(key)
		if it == nil {
			return -2
		}
		if it.exp.IsZero() {
			return -1
		}
		if cmd == "PTTL" {
			return int64(time.Until(it.exp) / time.Millisecond)
		}
		return int64(time.Until(it.exp) / time.Second)
	case "DEL", "UNLINK", "EXISTS", "TOUCH":
		n := 0
		for _, k := range args[1:] {
			if s.live(k) != nil {
				n++
				if cmd == "DEL" || cmd == "UNLINK" {
					delete(s.items, k)
				}
			}
		}
		return n
	case "INCR":
		return s.incr(key, 1)
	case "DECR":
		return s.incr(key, -1)
	case "INCRBY", "DECRBY":
		n, err := strconv.ParseInt(args[2], 10, 64)
		if err != nil {
			return notInt
		}
		if cmd == "DECRBY" {
			if n == math.MinInt64 {
				return rErr("ERR decrement would overflow")
			}
			n = -n
		}
		return s.incr(key, n)
	case "FLUSHDB", "FLUSHALL":
		s.items = map[string]*rItem{}
		if cmd == "FLUSHALL" {
			s.others++
		}
		return rStatus("OK")
	case "EVAL":
		n, err := strconv.Atoi(args[2])
		if err != nil || n < 0 || n > len(args)-3 {
			return rErr("ERR Number of keys can't be greater than number of args")
		}
		s.scripts[sha(args[1])] = args[1]
		v, err := runLua(args[1], args[3:3+n], args[3+n:], s.exec)
		if err != nil {
			s.bad = append(s.bad, "EVAL: "+err.Error())
			return rErr("ERR Error running script: " + err.Error())
		}
		return v
	}
	s.bad = append(s.bad, fmt.Sprintf("%q", args))
	return rErr("ERR unknown command '" + args[0] + "'")
}

func (s *Redis) incr(key string, n int64) any {
	it := s.live(key)
	if it == nil {
		it = &rItem{val: "0"}
	}
	v, err := strconv.ParseInt(it.val, 10, 64)
	if err != nil || strconv.FormatInt(v, 10) != it.val {
		return notInt
	}
	if n > 0 && v > math.MaxInt64-n || n < 0 && v < math.MinInt64-n {
		return rErr("ERR increment or decrement would overflow")
	}
	it.val = strconv.FormatInt(v+n, 10)
	s.items[key] = it
	return v + n
}

// after is n seconds, or milliseconds, from now; very late ends are cut.
func after(n int64, ms bool) time.Time {
	u := int64(time.Second)
	if ms {
		u = int64(time.Millisecond)
	}
	if n > math.MaxInt64/u/2 {
		n = math.MaxInt64 / u / 2
	}
	return time.Now().Add(time.Duration(n * u))
}

func sha(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:])
}
