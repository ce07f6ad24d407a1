package fake

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"
)

type mcItem struct {
	val   []byte
	flags uint32
	exp   time.Time
	cas   uint64
}

// Memcached speaks the memcached text protocol.
type Memcached struct {
	server
	items   map[string]*mcItem
	cas     uint64
	started int64
}

// NewMemcached starts a server on a free loopback port.
func NewMemcached() *Memcached {
	m := &Memcached{items: map[string]*mcItem{}, started: time.Now().Unix() - 2}
	m.start(m.serve)
	return m
}

// NewMemcachedOn starts a server on a listener.
func NewMemcachedOn(ln net.Listener) *Memcached {
	m := &Memcached{items: map[string]*mcItem{}, started: time.Now().Unix() - 2}
	m.startOn(ln, m.serve)
	return m
}

// Reset forgets everything.
func (m *Memcached) Reset() { m.mu.Lock(); m.items = map[string]*mcItem{}; m.mu.Unlock() }

// Advance lets d pass for every stored deadline.
func (m *Memcached) Advance(d time.Duration) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, it := range m.items {
		if !it.exp.IsZero() {
			it.exp = it.exp.Add(-d)
		}
	}
}

// Keys lists the live keys.
func (m *Memcached) Keys() (keys []string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k := range m.items {
		if m.live(k) != nil {
			keys = append(keys, k)
		}
	}
	return
}

func (m *Memcached) live(k string) *mcItem {
	it := m.items[k]
	if it != nil && expired(it.exp) {
		delete(m.items, k)
		return nil
	}
	return it
}

// realtime is memcached's rule: 0 never, up to 30 days relative, else absolute.
func (m *Memcached) realtime(n int64) time.Time {
	switch {
	case n == 0:
		return time.Time{}
	case n < 0:
		return time.Unix(1, 0)
	case n <= 60*60*24*30:
		return time.Now().Add(time.Duration(n) * time.Second)
	case n <= m.started:
		return time.Unix(1, 0)
	}
	return time.Unix(n, 0)
}

func (m *Memcached) serve(c net.Conn) {
	r, w := bufio.NewReader(c), bufio.NewWriter(c)
	for {
		line, err := r.ReadString('\n')
		if err != nil || !strings.HasSuffix(line, "\r\n") {
			return
		}
		f := strings.Fields(line)
		if len(f) == 0 {
			fmt.Fprint(w, "ERROR\r\n")
			w.Flush()
			continue
		}
		var body []byte
		cmd := f[0]
		storage := cmd == "set" || cmd == "add" || cmd == "replace" || cmd == "cas"
		var exp int64
		if storage {
			if len(f) < 5 {
				fmt.Fprint(w, "ERROR\r\n")
				w.Flush()
				continue
			}
			n, err := strconv.Atoi(f[4])
			if err != nil || n < 0 {
				return
			}
			body = make([]byte, n+2)
			if _, err := io.ReadFull(r, body); err != nil {
				return
			}
			var e2 error
			exp, e2 = strconv.ParseInt(f[3], 10, 32)
			if e2 != nil || !bytes.HasSuffix(body, []byte("\r\n")) || len(f[1]) > 250 {
				fmt.Fprint(w, "CLIENT_ERROR bad command line format\r\n")
				w.Flush()
				continue
			}
			body = body[:n]
			if n > 1<<20 {
				fmt.Fprint(w, "SERVER_ERROR object too large for cache\r\n")
				w.Flush()
				continue
			}
		}
		op := Op{Name: cmd, Write: cmd != "get" && cmd != "gets"}
		if len(f) > 1 {
			op.Key = f[1]
		}
		var out bytes.Buffer
		apply := func() {
			switch {
			case storage:
				old := m.live(op.Key)
				if cmd == "add" && old != nil || cmd == "replace" && old == nil {
					out.WriteString("NOT_STORED\r\n")
					return
				}
				if cmd == "cas" {
					if old == nil {
						out.WriteString("NOT_FOUND\r\n")
						return
					}
					if len(f) < 6 || f[5] != strconv.FormatUint(old.cas, 10) {
						out.WriteString("EXISTS\r\n")
						return
					}
				}
				flags, _ := strconv.ParseUint(f[2], 10, 32)
				m.cas++
				m.items[op.Key] = &mcItem{val: body, flags: uint32(flags), exp: m.realtime(exp), cas: m.cas}
				out.WriteString("STORED\r\n")
			case cmd == "get" || cmd == "gets":
				for _, k := range f[1:] {
					if it := m.live(k); it != nil {
						fmt.Fprintf(&out, "VALUE %s %d %d", k, it.flags, len(it.val))
						if cmd == "gets" {
							fmt.Fprintf(&out, " %d", it.cas)
						}
						out.WriteString("\r\n")
						out.Write(it.val)
						out.WriteString("\r\n")
					}
				}
				out.WriteString("END\r\n")
			case cmd == "touch" && len(f) >= 3:
				n, err := strconv.ParseInt(f[2], 10, 32)
				if err != nil {
					out.WriteString("CLIENT_ERROR invalid exptime argument\r\n")
					return
				}
				if it := m.live(op.Key); it != nil {
					it.exp = m.realtime(n)
					out.WriteString("TOUCHED\r\n")
				} else {
					out.WriteString("NOT_FOUND\r\n")
				}
			case cmd == "delete" && len(f) >= 2:
				if m.live(op.Key) == nil {
					out.WriteString("NOT_FOUND\r\n")
				} else {
					delete(m.items, op.Key)
					out.WriteString("DELETED\r\n")
				}
			case (cmd == "incr" || cmd == "decr") && len(f) >= 3:
				d, err := strconv.ParseUint(f[2], 10, 64)
				if err != nil {
					out.WriteString("CLIENT_ERROR invalid numeric delta argument\r\n")
					return
				}
				it := m.live(op.Key)
				if it == nil {
					out.WriteString("NOT_FOUND\r\n")
					return
				}
				// memcached reads the number up to the first space
				v, err := strconv.ParseUint(strings.TrimRight(string(it.val), " "), 10, 64)
				if err != nil || len(it.val) > 20 {
					out.WriteString("CLIENT_ERROR cannot increment or decrement non-numeric value\r\n")
					return
				}
				if cmd == "incr" {
					v += d
				} else if v < d {
					v = 0
				} else {
					v -= d
				}
				s := strconv.FormatUint(v, 10)
				out.WriteString(s + "\r\n")
				// a shorter number is padded in place, as memcached does
				for len(s) < len(it.val) {
					s += " "
				}
				m.cas++
				it.val, it.cas = []byte(s), m.cas
			case cmd == "flush_all":
				m.items = map[string]*mcItem{}
				out.WriteString("OK\r\n")
			case cmd == "version":
				out.WriteString("VERSION 1.6\r\n")
			default:
				m.bad = append(m.bad, strings.TrimSpace(line))
				out.WriteString("ERROR\r\n")
			}
		}
		switch m.do(op, apply) {
		case Err:
			fmt.Fprint(w, "SERVER_ERROR injected\r\n")
		case DropBefore, DropAfter:
			return
		default:
			w.Write(out.Bytes())
		}
		if w.Flush() != nil {
			return
		}
	}
}
