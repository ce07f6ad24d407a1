package fake

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"reflect"
	"strings"
	"time"

	"github.com/globalsign/mgo/bson"
)

type mIndex struct {
	field  string
	unique bool
	ttl    int // seconds, -1 none
}

type mColl struct {
	docs    []bson.D
	indexes []mIndex
}

// Mongo speaks the part of the mongod wire protocol that mgo uses with
// servers of wire version 3: OP_QUERY, write commands, createIndexes.
type Mongo struct {
	server
	colls map[string]*mColl
	reqID int32
}

// NewMongo starts a server on a free loopback port.
func NewMongo() *Mongo {
	m := &Mongo{colls: map[string]*mColl{}}
	m.start(m.serve)
	return m
}

// NewMongoOn starts a server on a listener.
func NewMongoOn(ln net.Listener) *Mongo {
	m := &Mongo{colls: map[string]*mColl{}}
	m.startOn(ln, m.serve)
	return m
}

// Reset forgets all documents.
func (m *Mongo) Reset() {
	m.mu.Lock()
	for _, c := range m.colls {
		c.docs = nil
	}
	m.mu.Unlock()
}

// Docs counts the documents of a collection (db.coll).
func (m *Mongo) Docs(coll string) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	if c := m.colls[coll]; c != nil {
		return len(c.docs)
	}
	return 0
}

// TTLIndexes lists field:seconds of the TTL indexes of a collection.
func (m *Mongo) TTLIndexes(coll string) (out []string) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if c := m.colls[coll]; c != nil {
		for _, i := range c.indexes {
			if i.ttl >= 0 {
				out = append(out, fmt.Sprintf("%s:%d", i.field, i.ttl))
			}
		}
	}
	return
}

// Advance lets d pass for every date, and lets the TTL monitor run when sweep.
func (m *Mongo) Advance(d time.Duration, sweep bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.colls {
		for _, doc := range c.docs {
			for i := range doc {
				if t, ok := doc[i].Value.(time.Time); ok {
					doc[i].Value = t.Add(-d)
				}
			}
		}
		if !sweep {
			continue
		}
		for _, ix := range c.indexes {
			if ix.ttl < 0 {
				continue
			}
			var keep []bson.D
			for _, doc := range c.docs {
				if t, ok := field(doc, ix.field).(time.Time); ok && time.Since(t) >= time.Duration(ix.ttl)*time.Second {
					continue
				}
				keep = append(keep, doc)
			}
			c.docs = keep
		}
	}
}

func (m *Mongo) coll(name string) *mColl {
	c := m.colls[name]
	if c == nil {
		c = &mColl{indexes: []mIndex{{field: "_id", unique: true, ttl: -1}}}
		m.colls[name] = c
	}
	return c
}

func field(d bson.D, name string) any {
	for _, e := range d {
		if e.Name == name {
			return e.Value
		}
	}
	return nil
}

func hasField(d bson.D, name string) bool {
	for _, e := range d {
		if e.Name == name {
			return true
		}
	}
	return false
}

func num(v any) (float64, bool) {
	switch t := v.(type) {
	case int:
		return float64(t), true
	case int64:
		return float64(t), true
	case float64:
		return t, true
	}
	return 0, false
}

func equal(a, b any) bool {
	x, ok1 := num(a)
	y, ok2 := num(b)
	if ok1 && ok2 {
		return x == y
	}
	if t, ok := a.(time.Time); ok {
		u, ok := b.(time.Time)
		return ok && t.Equal(u)
	}
	return reflect.DeepEqual(a, b)
}

// less compares values of one kind; others never compare.
func less(a, b any) (lt, ok bool) {
	if x, ok1 := num(a); ok1 {
		y, ok2 := num(b)
		return x < y, ok2
	}
	switch x := a.(type) {
	case time.Time:
		y, ok := b.(time.Time)
		return ok && x.Before(y), ok
	case string:
		y, ok := b.(string)
		return x < y, ok
	}
	return false, false
}

func (m *Mongo) match(doc, q bson.D) bool {
	for _, e := range q {
		switch e.Name {
		case "$and", "$or", "$nor":
			list, _ := e.Value.([]interface{})
			any, all := false, true
			for _, x := range list {
				d, _ := x.(bson.D)
				if m.match(doc, d) {
					any = true
				} else {
					all = false
				}
			}
			if e.Name == "$and" && !all || e.Name == "$or" && !any || e.Name == "$nor" && any {
				return false
			}
			continue
		}
		v := field(doc, e.Name)
		if cond, ok := e.Value.(bson.D); ok && len(cond) > 0 && strings.HasPrefix(cond[0].Name, "$") {
			for _, c := range cond {
				r := false
				lt, ok1 := less(v, c.Value)
				gt, ok2 := less(c.Value, v)
				switch c.Name {
				case "$gt":
					r = ok2 && gt
				case "$gte":
					r = ok2 && (gt || equal(v, c.Value))
				case "$lt":
					r = ok1 && lt
				case "$lte":
					r = ok1 && (lt || equal(v, c.Value))
				case "$eq":
					r = equal(v, c.Value)
				case "$ne":
					r = !equal(v, c.Value)
				case "$exists":
					want, _ := c.Value.(bool)
					r = hasField(doc, e.Name) == want
				case "$in":
					list, _ := c.Value.([]interface{})
					for _, x := range list {
						r = r || equal(v, x)
					}
				case "$nin":
					list, _ := c.Value.([]interface{})
					r = true
					for _, x := range list {
						r = r && !equal(v, x)
					}
				case "$not":
					r = !m.match(doc, bson.D{{Name: e.Name, Value: c.Value}})
				case "$type":
					r = hasField(doc, e.Name)
					want := fmt.Sprint(c.Value)
					switch v.(type) {
					case string:
						r = want == "2" || want == "string"
					case float64:
						r = want == "1" || want == "double" || want == "number"
					case int, int32:
						r = want == "16" || want == "int" || want == "number"
					case int64:
						r = want == "18" || want == "long" || want == "number"
					case time.Time:
						r = want == "9" || want == "date"
					case bool:
						r = want == "8" || want == "bool"
					case []byte:
						r = want == "5" || want == "binData"
					case bson.D:
						r = want == "3" || want == "object"
					}
				default:
					m.bad = append(m.bad, "operator "+c.Name)
				}
				if !r {
					return false
				}
			}
			continue
		}
		if !equal(v, e.Value) {
			return false
		}
	}
	return true
}

func set(d bson.D, name string, v any) bson.D {
	for i := range d {
		if d[i].Name == name {
			d[i].Value = v
			return d
		}
	}
	return append(d, bson.DocElem{Name: name, Value: v})
}

// update returns the new document.
func (m *Mongo) update(doc, u bson.D, insert bool) (bson.D, string) {
	if len(u) == 0 || !strings.HasPrefix(u[0].Name, "$") {
		id := field(doc, "_id")
		if hasField(doc, "_id") && hasField(u, "_id") && !equal(id, field(u, "_id")) {
			return nil, "The _id field cannot be changed"
		}
		var out bson.D
		if hasField(doc, "_id") {
			out = append(out, bson.DocElem{Name: "_id", Value: id})
		}
		for _, e := range u {
			if e.Name == "_id" && len(out) > 0 {
				continue
			}
			out = append(out, e)
		}
		return out, ""
	}
	out := append(bson.D{}, doc...)
	for _, op := range u {
		fields, _ := op.Value.(bson.D)
		for _, f := range fields {
			switch op.Name {
			case "$set":
				out = set(out, f.Name, f.Value)
			case "$setOnInsert":
				if insert {
					out = set(out, f.Name, f.Value)
				}
			case "$unset":
				for i := range out {
					if out[i].Name == f.Name {
						out = append(out[:i:i], out[i+1:]...)
						break
					}
				}
			case "$max", "$min":
				lt, ok := less(field(out, f.Name), f.Value)
				gt, _ := less(f.Value, field(out, f.Name))
				if !hasField(out, f.Name) || ok && (op.Name == "$max" && lt || op.Name == "$min" && gt) {
					out = set(out, f.Name, f.Value)
				}
			case "$currentDate":
				out = set(out, f.Name, time.Now())
			case "$inc":
				cur := field(out, f.Name)
				if !hasField(out, f.Name) {
					cur = 0
				}
				a, ok1 := num(cur)
				b, ok2 := num(f.Value)
				if !ok1 {
					return nil, "Cannot apply $inc to a value of non-numeric type"
				}
				if !ok2 {
					return nil, "Cannot increment with non-numeric argument"
				}
				if _, fl := cur.(float64); fl {
					out = set(out, f.Name, a+b)
					break
				}
				if _, fl := f.Value.(float64); fl {
					out = set(out, f.Name, a+b)
					break
				}
				x, y := i64(cur), i64(f.Value)
				if y > 0 && x > math.MaxInt64-y || y < 0 && x < math.MinInt64-y {
					return nil, "Failed to apply $inc operations to current value"
				}
				out = set(out, f.Name, x+y)
			default:
				m.bad = append(m.bad, "update operator "+op.Name)
				return nil, "Unknown modifier: " + op.Name
			}
		}
	}
	return out, ""
}

func i64(v any) int64 {
	switch t := v.(type) {
	case int:
		return int64(t)
	case int64:
		return t
	}
	return 0
}

func (c *mColl) duplicate(doc bson.D, except int) bool {
	for _, ix := range c.indexes {
		if !ix.unique {
			continue
		}
		for i, d := range c.docs {
			if i != except && equal(field(d, ix.field), field(doc, ix.field)) {
				return true
			}
		}
	}
	return false
}

func list(v any) (out []bson.D) {
	l, _ := v.([]interface{})
	for _, x := range l {
		if d, ok := x.(bson.D); ok {
			out = append(out, d)
		}
	}
	return
}

// command runs a command of db and returns its reply.
func (m *Mongo) command(db string, q bson.D) bson.D {
	if len(q) == 0 {
		return bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: "empty command"}}
	}
	name, _ := q[0].Value.(string)
	ok := bson.D{{Name: "ok", Value: 1}}
	writeErr := func(i, code int, msg string) bson.D {
		return bson.D{{Name: "ok", Value: 1}, {Name: "n", Value: 0}, {Name: "writeErrors", Value: []bson.D{{{Name: "index", Value: i}, {Name: "code", Value: code}, {Name: "errmsg", Value: msg}}}}}
	}
	switch cmd := strings.ToLower(q[0].Name); cmd {
	case "ismaster":
		return bson.D{{Name: "ismaster", Value: true}, {Name: "maxWireVersion", Value: 3}, {Name: "minWireVersion", Value: 0}, {Name: "ok", Value: 1}}
	case "ping", "getlasterror", "logout":
		return ok
	case "getnonce":
		return bson.D{{Name: "nonce", Value: "2375531c32080ae8"}, {Name: "ok", Value: 1}}
	case "createindexes":
		c := m.coll(db + "." + name)
		for _, d := range list(field(q, "indexes")) {
			key, _ := field(d, "key").(bson.D)
			if len(key) != 1 {
				m.bad = append(m.bad, "compound index")
				continue
			}
			ix := mIndex{field: key[0].Name, ttl: -1}
			ix.unique, _ = field(d, "unique").(bool)
			if f, ok := num(field(d, "expireAfterSeconds")); ok {
				ix.ttl = int(f)
			}
			known := false
			for _, o := range c.indexes {
				if o.field == ix.field {
					known = true
					if o != ix {
						return bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: "Index with name: " + ix.field + " already exists with different options"}, {Name: "code", Value: 85}}
					}
				}
			}
			if !known {
				c.indexes = append(c.indexes, ix)
			}
		}
		return ok
	case "insert":
		c := m.coll(db + "." + name)
		n := 0
		for i, d := range list(field(q, "documents")) {
			if !hasField(d, "_id") {
				d = append(bson.D{{Name: "_id", Value: bson.NewObjectId()}}, d...)
			}
			if c.duplicate(d, -1) {
				return writeErr(i, 11000, "E11000 duplicate key error")
			}
			c.docs = append(c.docs, d)
			n++
		}
		return append(ok, bson.DocElem{Name: "n", Value: n})
	case "update":
		c := m.coll(db + "." + name)
		n := 0
		var ups []bson.D
		for i, st := range list(field(q, "updates")) {
			sel, _ := field(st, "q").(bson.D)
			u, _ := field(st, "u").(bson.D)
			multi, _ := field(st, "multi").(bool)
			upsert, _ := field(st, "upsert").(bool)
			found := false
			for j, d := range c.docs {
				if !m.match(d, sel) {
					continue
				}
				found = true
				nd, msg := m.update(d, u, false)
				if msg != "" {
					return writeErr(i, 14, msg)
				}
				if c.duplicate(nd, j) {
					return writeErr(i, 11000, "E11000 duplicate key error")
				}
				c.docs[j] = nd
				n++
				if !multi {
					break
				}
			}
			if !found && upsert {
				var seed bson.D
				for _, e := range sel {
					if _, op := e.Value.(bson.D); !op && !strings.HasPrefix(e.Name, "$") {
						seed = append(seed, e)
					}
				}
				if len(u) > 0 && !strings.HasPrefix(u[0].Name, "$") && !hasField(seed, "_id") {
					seed = nil
				}
				nd, msg := m.update(seed, u, true)
				if msg != "" {
					return writeErr(i, 14, msg)
				}
				if !hasField(nd, "_id") {
					nd = append(bson.D{{Name: "_id", Value: bson.NewObjectId()}}, nd...)
				}
				if c.duplicate(nd, -1) {
					return writeErr(i, 11000, "E11000 duplicate key error")
				}
				c.docs = append(c.docs, nd)
				n++
				ups = append(ups, bson.D{{Name: "index", Value: i}, {Name: "_id", Value: field(nd, "_id")}})
			}
		}
		r := append(ok, bson.DocElem{Name: "n", Value: n}, bson.DocElem{Name: "nModified", Value: n - len(ups)})
		if len(ups) > 0 {
			r = append(r, bson.DocElem{Name: "upserted", Value: ups})
		}
		return r
	case "delete":
		c := m.coll(db + "." + name)
		n := 0
		for _, st := range list(field(q, "deletes")) {
			sel, _ := field(st, "q").(bson.D)
			limit := i64(field(st, "limit"))
			var keep []bson.D
			k := int64(0)
			for _, d := range c.docs {
				if m.match(d, sel) && (limit == 0 || k < limit) {
					k++
					continue
				}
				keep = append(keep, d)
			}
			c.docs = keep
			n += int(k)
		}
		return append(ok, bson.DocElem{Name: "n", Value: n})
	case "findandmodify":
		c := m.coll(db + "." + name)
		sel, _ := field(q, "query").(bson.D)
		u, _ := field(q, "update").(bson.D)
		remove, _ := field(q, "remove").(bool)
		upsert, _ := field(q, "upsert").(bool)
		wantNew, _ := field(q, "new").(bool)
		for j, d := range c.docs {
			if !m.match(d, sel) {
				continue
			}
			if remove {
				c.docs = append(c.docs[:j:j], c.docs[j+1:]...)
				return append(ok, bson.DocElem{Name: "value", Value: d}, bson.DocElem{Name: "lastErrorObject", Value: bson.D{{Name: "n", Value: 1}}})
			}
			nd, msg := m.update(d, u, false)
			if msg != "" {
				return bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: msg}}
			}
			if c.duplicate(nd, j) {
				return bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: "E11000 duplicate key error"}, {Name: "code", Value: 11000}}
			}
			c.docs[j] = nd
			v := d
			if wantNew {
				v = nd
			}
			return append(ok, bson.DocElem{Name: "value", Value: v}, bson.DocElem{Name: "lastErrorObject", Value: bson.D{{Name: "n", Value: 1}, {Name: "updatedExisting", Value: true}}})
		}
		if upsert && !remove {
			r := m.command(db, bson.D{{Name: "update", Value: name}, {Name: "updates", Value: []interface{}{bson.D{{Name: "q", Value: sel}, {Name: "u", Value: u}, {Name: "upsert", Value: true}}}}})
			if hasField(r, "writeErrors") {
				return bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: "E11000 duplicate key error"}, {Name: "code", Value: 11000}}
			}
			var v any
			var id any
			if ups, _ := field(r, "upserted").([]bson.D); len(ups) > 0 {
				id = field(ups[0], "_id")
			}
			if wantNew {
				for _, d := range c.docs {
					if equal(field(d, "_id"), id) {
						v = d
					}
				}
			}
			return append(ok, bson.DocElem{Name: "value", Value: v}, bson.DocElem{Name: "lastErrorObject", Value: bson.D{{Name: "n", Value: 1}, {Name: "updatedExisting", Value: false}, {Name: "upserted", Value: id}}})
		}
		return append(ok, bson.DocElem{Name: "value", Value: nil})
	case "drop":
		c := m.coll(db + "." + name)
		if len(c.docs) == 0 && len(c.indexes) == 0 {
			return bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: "ns not found"}, {Name: "code", Value: 26}}
		}
		delete(m.colls, db+"."+name)
		return ok
	case "listindexes":
		c := m.coll(db + "." + name)
		batch := []bson.D{{{Name: "key", Value: bson.D{{Name: "_id", Value: 1}}}, {Name: "name", Value: "_id_"}, {Name: "ns", Value: db + "." + name}}}
		for _, ix := range c.indexes {
			if ix.field == "_id" {
				continue
			}
			d := bson.D{{Name: "key", Value: bson.D{{Name: ix.field, Value: 1}}}, {Name: "name", Value: ix.field}, {Name: "ns", Value: db + "." + name}}
			if ix.unique {
				d = append(d, bson.DocElem{Name: "unique", Value: true})
			}
			if ix.ttl >= 0 {
				d = append(d, bson.DocElem{Name: "expireAfterSeconds", Value: ix.ttl})
			}
			batch = append(batch, d)
		}
		return append(ok, bson.DocElem{Name: "cursor", Value: bson.D{{Name: "id", Value: int64(0)}, {Name: "ns", Value: db + "." + name}, {Name: "firstBatch", Value: batch}}})
	case "count":
		c := m.coll(db + "." + name)
		sel, _ := field(q, "query").(bson.D)
		n := 0
		for _, d := range c.docs {
			if m.match(d, sel) {
				n++
			}
		}
		return append(ok, bson.DocElem{Name: "n", Value: n})
	}
	m.bad = append(m.bad, "command "+q[0].Name)
	return bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: "no such cmd: " + q[0].Name}, {Name: "code", Value: 59}}
}

func (m *Mongo) serve(c net.Conn) {
	r := bufio.NewReader(c)
	le := binary.LittleEndian
	for {
		head := make([]byte, 16)
		if _, err := io.ReadFull(r, head); err != nil {
			return
		}
		size := int(le.Uint32(head))
		if size < 16 || size > 64<<20 {
			return
		}
		body := make([]byte, size-16)
		if _, err := io.ReadFull(r, body); err != nil {
			return
		}
		id, code := le.Uint32(head[4:]), le.Uint32(head[12:])
		if code != 2004 {
			m.unknown(fmt.Sprintf("opcode %d", code))
			return
		}
		end := bytes.IndexByte(body[4:], 0)
		if end < 0 {
			return
		}
		ns := string(body[4 : 4+end])
		rest := body[4+end+1:]
		skip, limit := int(int32(le.Uint32(rest))), int(int32(le.Uint32(rest[4:])))
		rest = rest[8:]
		n := int(le.Uint32(rest))
		var q bson.D
		if err := bson.Unmarshal(rest[:n], &q); err != nil {
			m.unknown("query: " + err.Error())
			return
		}
		for _, w := range []string{"$query", "query"} {
			if in, ok := field(q, w).(bson.D); ok && q[0].Name == w {
				q = in
			}
		}
		op := Op{}
		var docs []any
		flags := uint32(8)
		var apply func()
		quiet := false
		if db, ok := strings.CutSuffix(ns, ".$cmd"); ok {
			name := ""
			if len(q) > 0 {
				name = strings.ToLower(q[0].Name)
			}
			op.Name = name
			quiet = name == "ismaster" || name == "getnonce" || name == "ping" || name == "getlasterror"
			op.Write = !quiet
			apply = func() { docs = []any{m.command(db, q)} }
		} else {
			op.Name = "find"
			apply = func() {
				max := limit
				if max < 0 {
					max = -max
				}
				for _, d := range m.coll(ns).docs {
					if m.match(d, q) {
						if skip > 0 {
							skip--
							continue
						}
						docs = append(docs, append(bson.D{}, d...))
						if max > 0 && len(docs) >= max {
							break
						}
					}
				}
			}
		}
		f := None
		if quiet {
			m.mu.Lock()
			apply()
			m.mu.Unlock()
		} else {
			f = m.do(op, apply)
		}
		switch f {
		case DropBefore, DropAfter:
			return
		case Err:
			if op.Name == "find" {
				flags |= 2
				docs = []any{bson.D{{Name: "$err", Value: "injected"}, {Name: "code", Value: 17999}}}
			} else {
				docs = []any{bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: "injected"}, {Name: "code", Value: 17999}}}
			}
		}
		var out bytes.Buffer
		out.Write(make([]byte, 36))
		for _, d := range docs {
			b, err := bson.Marshal(d)
			if err != nil {
				m.unknown("reply: " + err.Error())
				return
			}
			out.Write(b)
		}
		b := out.Bytes()
		m.mu.Lock()
		m.reqID++
		le.PutUint32(b[4:], uint32(m.reqID))
		m.mu.Unlock()
		le.PutUint32(b, uint32(len(b)))
		le.PutUint32(b[8:], id)
		le.PutUint32(b[12:], 1)
		le.PutUint32(b[16:], flags)
		le.PutUint32(b[32:], uint32(len(docs)))
		if _, err := c.Write(b); err != nil {
			return
		}
	}
}
