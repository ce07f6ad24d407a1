// Package fake has in-process loopback servers that behave like memcached,
// redis and mongod as far as the code under test uses them.  Their clock can
// be advanced (deadlines are moved back, since the clients use the real
// clock), and operations can be made to fail in chosen ways.
package fake

import (
	"net"
	"sync"
	"time"
)

// Fault tells what happens to one operation.
type Fault int

const (
	None       Fault = iota
	Err              // answered with an error, not applied
	DropBefore       // connection closed, not applied
	DropAfter        // connection closed, applied
)

func (f Fault) String() string { return [...]string{"none", "err", "drop-before", "drop-after"}[f] }

// Op is one operation as the server saw it.
type Op struct {
	Name  string
	Key   string
	Write bool
}

type server struct {
	ln    net.Listener
	mu    sync.Mutex
	conns map[net.Conn]bool
	down  bool
	// Hook is asked before every operation (not for pings and handshakes).
	hook  func(Op) Fault
	delay func()
	ops   map[string]int64
	bad   []string // protocol use the server does not know
}

func (s *server) start(serve func(net.Conn)) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.startOn(ln, serve)
}

func (s *server) startOn(ln net.Listener, serve func(net.Conn)) {
	s.ln, s.conns, s.ops = ln, map[net.Conn]bool{}, map[string]int64{}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			if s.down {
				s.mu.Unlock()
				c.Close()
				continue
			}
			s.conns[c] = true
			s.mu.Unlock()
			go func() {
				defer func() {
					s.mu.Lock()
					delete(s.conns, c)
					s.mu.Unlock()
					c.Close()
				}()
				serve(c)
			}()
		}
	}()
}

// Addr is host:port.
func (s *server) Addr() string { return s.ln.Addr().String() }

// Close stops the server.
func (s *server) Close() {
	s.ln.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		c.Close()
	}
}

// Open counts the open connections.
func (s *server) Open() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.conns) }

// SetHook installs the fault hook.
func (s *server) SetHook(f func(Op) Fault) { s.mu.Lock(); s.hook = f; s.mu.Unlock() }

// SetDelay installs a function called around every operation, unlocked.
func (s *server) SetDelay(f func()) { s.mu.Lock(); s.delay = f; s.mu.Unlock() }

// Ops returns how often every operation was seen.
func (s *server) Ops() map[string]int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := map[string]int64{}
	for k, v := range s.ops {
		m[k] = v
	}
	return m
}

// Bad returns requests the server does not know.
func (s *server) Bad() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.bad...)
}

func (s *server) unknown(what string) {
	s.mu.Lock()
	s.bad = append(s.bad, what)
	s.mu.Unlock()
}

// do runs one operation under the server lock and its fault.
func (s *server) do(op Op, apply func()) Fault {
	s.mu.Lock()
	hook, delay := s.hook, s.delay
	s.ops[op.Name]++
	s.mu.Unlock()
	f := None
	if hook != nil {
		f = hook(op)
	}
	if delay != nil {
		delay()
	}
	if f == None || f == DropAfter {
		s.mu.Lock()
		apply()
		s.mu.Unlock()
	}
	if delay != nil {
		delay()
	}
	return f
}

func expired(at time.Time) bool { return !at.IsZero() && !time.Now().Before(at) }
