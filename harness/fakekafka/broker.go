//go:build go1.21

// Package fakekafka is a Kafka cluster small enough to watch: it speaks the
// part of the protocol the streams library uses, over loopback TCP, keeps every
// record, and misbehaves on request (delays, lost connections before or after
// a write, retriable errors, short fetches, leaders on several brokers).
package fakekafka

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Rec is one record of a partition.
type Rec struct {
	Offset int64
	Key    []byte
	Value  []byte
	Time   int64 // ms
}

type batch struct {
	base int64
	n    int
	raw  []byte
	ts   int64
}

type partition struct {
	leader  int32
	start   int64
	hwm     int64
	first   int64 // where the offsets begin
	batches []*batch
}

// Action is what to do with one request.
type Action struct {
	Delay      time.Duration
	DropBefore bool  // close the connection instead of handling it
	DropAfter  bool  // handle it, then close the connection without answering
	Err        int16 // answer with this error instead of handling it
	Batches    int   // fetch: at most so many record batches per partition
	Hold       bool  // fetch: nothing from this partition for now
}

// Hooks decide about the requests concerning a topic.
type Hooks struct {
	Produce func(topic string, part int32) Action
	Fetch   func(topic string, part int32) Action
	Offsets func(topic string, part int32) Action
}

// Topic is a topic with its monitors.
type Topic struct {
	Name   string
	cl     *Cluster
	parts  []*partition
	hooks  *Hooks
	closed atomic.Bool
	from   time.Time // without leaders until then

	Produces atomic.Int64 // produce requests
	Fetches  atomic.Int64
	Config   map[string]string
	Acks     atomic.Int64   // of the last produce request
	MaxWait  atomic.Int64   // of the last fetch, ms
	MaxBytes atomic.Int64   // of the last fetch, for a partition
	lowest   sync.Map       // per partition, the lowest offset asked for
	served   []atomic.Int64 // per partition, the offset after the last record handed out
}

// Served is the offset after the last record of a partition handed out.
func (t *Topic) Served(part int) int64 { return t.served[part].Load() }

// Lowest is the lowest offset of a partition that a fetch has asked for since
// the last call.
func (t *Topic) Lowest(part int) (int64, bool) {
	v, ok := t.lowest.LoadAndDelete(int32(part))
	if !ok {
		return 0, false
	}
	return v.(int64), true
}

func (t *Topic) noteFetch(part int32, off int64) {
	for {
		v, ok := t.lowest.LoadOrStore(part, off)
		if !ok || v.(int64) <= off || t.lowest.CompareAndSwap(part, v, off) {
			return
		}
	}
}

// Empty tells whether a partition's messages have all expired.
func (t *Topic) Empty(part int) bool {
	t.cl.mu.Lock()
	defer t.cl.mu.Unlock()
	return t.parts[part].start >= t.parts[part].hwm
}

// Cluster is a set of brokers sharing their topics.
type Cluster struct {
	mu      sync.Mutex
	topics  map[string]*Topic
	addrs   []string
	lns     []net.Listener
	auto    int32 // partitions of topics created without a number
	def     *Hooks
	nextPid int64
	Created []CreateReq
	onMake  func(topic string) Action
	onLook  func(topic string) bool
	hide    time.Duration
	sasl    *saslConf
	conns   atomic.Int64
}

// Conns is the number of open connections.
func (c *Cluster) Conns() int64 { return c.conns.Load() }

// CreateReq is a recorded request to create a topic.
type CreateReq struct {
	Name        string
	Partitions  int32
	Replication int16
	Config      map[string]string
}

// New starts a cluster of n brokers.
func New(n int) *Cluster {
	c := &Cluster{topics: map[string]*Topic{}}
	for i := 0; i < n; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		c.lns = append(c.lns, ln)
		c.addrs = append(c.addrs, ln.Addr().String())
	}
	for i := range c.lns {
		go c.accept(int32(i))
	}
	return c
}

// Close stops listening.
func (c *Cluster) Close() {
	for _, l := range c.lns {
		l.Close()
	}
}

// Addrs are the brokers' addresses.
func (c *Cluster) Addrs() []string { return c.addrs }

// URL is the cluster's address in the library's format.
func (c *Cluster) URL(opts string) string {
	return c.URLWith("none", opts)
}

// URLWith also chooses the codec.
func (c *Cluster) URLWith(codec, opts string) string {
	return "kafka://" + strings.Join(c.addrs, ",") + "?compression.codec=" + codec + "&" + opts
}

// CreateTopic makes a topic.
func (c *Cluster) CreateTopic(name string, parts int, h *Hooks) *Topic {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.create(name, parts, h)
}

func (c *Cluster) create(name string, parts int, h *Hooks) *Topic {
	t := &Topic{Name: name, cl: c, hooks: h}
	if h == nil {
		t.hooks = &Hooks{}
	}
	for i := 0; i < parts; i++ {
		t.parts = append(t.parts, &partition{leader: int32((i + len(name)) % len(c.addrs))})
	}
	t.served = make([]atomic.Int64, parts)
	c.topics[name] = t
	return t
}

// Topic finds a topic.
func (c *Cluster) Topic(name string) *Topic {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.topics[name]
}

// SetHooks changes a topic's hooks.
func (c *Cluster) SetHooks(name string, h *Hooks) {
	if h == nil {
		h = &Hooks{}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if t := c.topics[name]; t != nil {
		t.hooks = h
	}
}

// Retire lets leftover pollers of a topic sleep.
func (c *Cluster) Retire(name string) {
	if t := c.Topic(name); t != nil {
		t.closed.Store(true)
	}
}

// Parts is a topic's number of partitions.
func (c *Cluster) Parts(name string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if t := c.topics[name]; t != nil {
		return len(t.parts)
	}
	return 0
}

// HWM is the next offset of a partition.
func (c *Cluster) HWM(name string, part int) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.topics[name].parts[part].hwm
}

// Start is the first offset of a partition that has not expired.
func (c *Cluster) Start(name string, part int) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.topics[name].parts[part].start
}

// Creations are the requests to create a topic.
func (c *Cluster) Creations(name string) (out []CreateReq) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, q := range c.Created {
		if q.Name == name {
			out = append(out, q)
		}
	}
	return out
}

// Total is the number of records in a topic.
func (c *Cluster) Total(name string) int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	var n int64
	for _, p := range c.topics[name].parts {
		n += p.hwm - p.first
	}
	return n
}

// Append writes a record.
func (c *Cluster) Append(name string, part int, key, val []byte, ts int64) int64 {
	if ts == 0 {
		ts = time.Now().UnixMilli()
	}
	raw := encodeBatch([]Rec{{Key: key, Value: val, Time: ts}})
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.topics[name].parts[part].append(raw, 1, ts)
}

// Trim removes a partition's records below off.
func (c *Cluster) Trim(name string, part int, off int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := c.topics[name].parts[part]
	if off < p.start {
		panic("fakekafka: trimmed below the first offset")
	}
	for len(p.batches) > 0 && p.batches[0].base+int64(p.batches[0].n) <= off {
		p.batches = p.batches[1:]
	}
	p.start = off
}

func (p *partition) append(raw []byte, n int, ts int64) int64 {
	base := p.hwm
	binary.BigEndian.PutUint64(raw, uint64(base))
	p.batches = append(p.batches, &batch{base: base, n: n, raw: raw, ts: ts})
	p.hwm += int64(n)
	return base
}

// SetBase makes a topic one that has had messages since long ago: the offsets
// of its still empty partitions begin at base.
func (c *Cluster) SetBase(name string, base int64) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, p := range c.topics[name].parts {
		if p.hwm == 0 {
			p.first, p.start, p.hwm = base+int64(i), base+int64(i), base+int64(i)
		}
	}
}

// Codecs counts a partition's record batches by compression codec.
func (c *Cluster) Codecs(name string) map[int]int {
	c.mu.Lock()
	defer c.mu.Unlock()
	out := map[int]int{}
	for _, p := range c.topics[name].parts {
		for _, b := range p.batches {
			out[int(binary.BigEndian.Uint16(b.raw[21:])&7)]++
		}
	}
	return out
}

// Records decodes a partition's (uncompressed) records.
func (c *Cluster) Records(name string, part int) []Rec {
	c.mu.Lock()
	bs := append([]*batch{}, c.topics[name].parts[part].batches...)
	c.mu.Unlock()
	var out []Rec
	for _, b := range bs {
		rs, err := decodeBatch(b.raw)
		if err != nil {
			panic(err)
		}
		for i := range rs {
			rs[i].Offset += b.base
		}
		out = append(out, rs...)
	}
	return out
}

func varint(out []byte, v int64) []byte {
	u := uint64(v<<1) ^ uint64(v>>63)
	for u >= 0x80 {
		out = append(out, byte(u)|0x80)
		u >>= 7
	}
	return append(out, byte(u))
}

var castagnoli = crc32.MakeTable(crc32.Castagnoli)

func encodeBatch(rs []Rec) []byte {
	var body []byte // from attributes
	body = append(body, 0, 0)
	body = binary.BigEndian.AppendUint32(body, uint32(len(rs)-1))
	body = binary.BigEndian.AppendUint64(body, uint64(rs[0].Time))
	body = binary.BigEndian.AppendUint64(body, uint64(rs[len(rs)-1].Time))
	body = append(body, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255)
	body = binary.BigEndian.AppendUint32(body, uint32(len(rs)))
	for i, r := range rs {
		rec := []byte{0}
		rec = varint(rec, r.Time-rs[0].Time)
		rec = varint(rec, int64(i))
		for _, b := range [][]byte{r.Key, r.Value} {
			if b == nil {
				rec = varint(rec, -1)
			} else {
				rec = varint(rec, int64(len(b)))
				rec = append(rec, b...)
			}
		}
		rec = varint(rec, 0)
		body = varint(body, int64(len(rec)))
		body = append(body, rec...)
	}
	out := make([]byte, 8, 21+len(body))
	out = binary.BigEndian.AppendUint32(out, uint32(4+1+4+len(body)))
	out = append(out, 0, 0, 0, 0, 2)
	out = binary.BigEndian.AppendUint32(out, crc32.Checksum(body, castagnoli))
	return append(out, body...)
}

func decodeBatch(raw []byte) (out []Rec, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("bad batch: %v", e)
		}
	}()
	if len(raw) < 61 || raw[16] != 2 {
		return nil, fmt.Errorf("not a v2 batch")
	}
	if binary.BigEndian.Uint16(raw[21:])&7 != 0 {
		return nil, fmt.Errorf("compressed")
	}
	first := int64(binary.BigEndian.Uint64(raw[27:]))
	n := int(binary.BigEndian.Uint32(raw[57:]))
	r := &reader{b: raw[61:]}
	for i := 0; i < n; i++ {
		r.varint()
		r.take(1)
		ts := r.varint()
		off := r.varint()
		var kv [2][]byte
		for j := range kv {
			if l := r.varint(); l >= 0 {
				kv[j] = append([]byte{}, r.take(int(l))...)
			}
		}
		for h := r.varint(); h > 0; h-- {
			r.take(int(r.varint()))
			if l := r.varint(); l > 0 {
				r.take(int(l))
			}
		}
		out = append(out, Rec{Offset: off, Key: kv[0], Value: kv[1], Time: first + ts})
	}
	return out, nil
}

type reader struct{ b []byte }

func (r *reader) take(n int) []byte {
	v := r.b[:n]
	r.b = r.b[n:]
	return v
}
func (r *reader) i8() int8   { return int8(r.take(1)[0]) }
func (r *reader) i16() int16 { return int16(binary.BigEndian.Uint16(r.take(2))) }
func (r *reader) i32() int32 { return int32(binary.BigEndian.Uint32(r.take(4))) }
func (r *reader) i64() int64 { return int64(binary.BigEndian.Uint64(r.take(8))) }
func (r *reader) str() string {
	n := r.i16()
	if n < 0 {
		return ""
	}
	return string(r.take(int(n)))
}
func (r *reader) bytes() []byte {
	n := r.i32()
	if n < 0 {
		return nil
	}
	return r.take(int(n))
}
func (r *reader) varint() int64 {
	var u uint64
	for s := uint(0); ; s += 7 {
		c := r.take(1)[0]
		u |= uint64(c&0x7f) << s
		if c < 0x80 {
			break
		}
	}
	return int64(u>>1) ^ -int64(u&1)
}

type writer struct{ b []byte }

func (w *writer) i8(v int8)   { w.b = append(w.b, byte(v)) }
func (w *writer) i16(v int16) { w.b = binary.BigEndian.AppendUint16(w.b, uint16(v)) }
func (w *writer) i32(v int32) { w.b = binary.BigEndian.AppendUint32(w.b, uint32(v)) }
func (w *writer) i64(v int64) { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)) }
func (w *writer) str(s string) {
	w.i16(int16(len(s)))
	w.b = append(w.b, s...)
}
func (w *writer) bytes(b []byte) {
	w.i32(int32(len(b)))
	w.b = append(w.b, b...)
}

func (c *Cluster) accept(id int32) {
	for {
		conn, err := c.lns[id].Accept()
		if err != nil {
			return
		}
		go c.serve(id, conn)
	}
}

func (c *Cluster) serve(id int32, conn net.Conn) {
	defer conn.Close()
	c.conns.Add(1)
	defer c.conns.Add(-1)
	st := &connState{}
	for {
		var lb [4]byte
		if _, err := io.ReadFull(conn, lb[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(lb[:])
		if n > 200<<20 {
			return
		}
		buf := make([]byte, n)
		if _, err := io.ReadFull(conn, buf); err != nil {
			return
		}
		var out []byte
		var drop bool
		if c.sasl != nil && st.mech == "PLAIN" && !st.authed {
			out, drop = c.plainAuth(buf, st) // unwrapped, after a version 0 handshake
		} else {
			out, drop = c.handle(id, buf, st)
		}
		if drop {
			return
		}
		if out == nil {
			continue
		}
		if _, err := conn.Write(out); err != nil {
			return
		}
	}
}

func (c *Cluster) handle(id int32, buf []byte, st *connState) (out []byte, drop bool) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println("fakekafka: bad request:", e)
			out, drop = nil, true
		}
	}()
	r := &reader{b: buf}
	api, ver, corr := r.i16(), r.i16(), r.i32()
	r.str() // client id
	w := &writer{}
	w.i32(0)
	w.i32(corr)
	if c.sasl != nil && !st.authed && api != 17 && api != 36 && api != 18 {
		return nil, true // not authenticated
	}
	reply := true
	switch api {
	case 0:
		reply, drop = c.produce(id, ver, r, w)
	case 1:
		drop = c.fetch(id, ver, r, w)
	case 2:
		drop = c.offsets(id, ver, r, w)
	case 3:
		drop = c.metadata(ver, r, w)
	case 19:
		drop = c.createTopics(id, ver, r, w)
	case 22:
		r.i16()
		w.i32(0)
		w.i16(0)
		c.mu.Lock()
		c.nextPid++
		w.i64(c.nextPid)
		c.mu.Unlock()
		w.i16(0)
	case 17:
		drop = c.saslHandshake(ver, r, w, st)
	case 36:
		drop = c.saslAuth(ver, r, w, st)
	default:
		fmt.Println("fakekafka: unknown api", api)
		return nil, true
	}
	if drop {
		return nil, true
	}
	if !reply {
		return nil, false
	}
	binary.BigEndian.PutUint32(w.b, uint32(len(w.b)-4))
	return w.b, false
}

func (c *Cluster) metadata(ver int16, r *reader, w *writer) bool {
	n := r.i32()
	var names []string
	for i := int32(0); i < n; i++ {
		names = append(names, r.str())
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, t := range names {
		if c.onLook != nil && c.onLook(t) {
			return true
		}
	}
	if n < 0 || (ver == 0 && n == 0) {
		for k := range c.topics {
			if !c.topics[k].closed.Load() {
				names = append(names, k)
			}
		}
	}
	if ver >= 3 {
		w.i32(0)
	}
	w.i32(int32(len(c.addrs)))
	for i, a := range c.addrs {
		host, port, _ := net.SplitHostPort(a)
		var p int32
		fmt.Sscan(port, &p)
		w.i32(int32(i))
		w.str(host)
		w.i32(p)
		if ver >= 1 {
			w.i16(-1)
		}
	}
	if ver >= 2 {
		w.str("verif")
	}
	if ver >= 1 {
		w.i32(0)
	}
	w.i32(int32(len(names)))
	for _, name := range names {
		t := c.topics[name]
		switch {
		case t == nil:
			w.i16(3)
		case time.Now().Before(t.from):
			w.i16(5)
			t = nil
		default:
			w.i16(0)
		}
		w.str(name)
		if ver >= 1 {
			w.i8(0)
		}
		if t == nil {
			w.i32(0)
			continue
		}
		w.i32(int32(len(t.parts)))
		for i, p := range t.parts {
			w.i16(0)
			w.i32(int32(i))
			w.i32(p.leader)
			w.i32(1)
			w.i32(p.leader)
			w.i32(1)
			w.i32(p.leader)
			if ver >= 5 {
				w.i32(0)
			}
		}
	}
	return false
}

func (c *Cluster) createTopics(id int32, ver int16, r *reader, w *writer) bool {
	n := r.i32()
	if ver >= 2 {
		w.i32(0)
	}
	w.i32(n)
	for i := int32(0); i < n; i++ {
		q := CreateReq{Name: r.str(), Partitions: r.i32(), Replication: r.i16(), Config: map[string]string{}}
		for k := r.i32(); k > 0; k-- {
			r.i32()
			for l := r.i32(); l > 0; l-- {
				r.i32()
			}
		}
		for k := r.i32(); k > 0; k-- {
			key := r.str()
			q.Config[key] = r.str()
		}
		c.mu.Lock()
		c.Created = append(c.Created, q)
		f := c.onMake
		c.mu.Unlock()
		var a Action
		if f != nil {
			a = f(q.Name)
		}
		time.Sleep(a.Delay)
		if a.DropBefore {
			return true
		}
		w.str(q.Name)
		c.mu.Lock()
		switch {
		case id != 0:
			w.i16(41) // not the controller
		case a.Err != 0:
			w.i16(a.Err)
		case c.topics[q.Name] != nil:
			w.i16(36)
		default:
			t := c.create(q.Name, int(q.Partitions), c.def)
			t.Config = q.Config
			t.from = time.Now().Add(c.hide)
			w.i16(0)
		}
		c.mu.Unlock()
		if a.DropAfter {
			return true
		}
		if ver >= 1 {
			w.i16(-1)
		}
	}
	return false
}

// SetLookupHook decides which requests for metadata of a topic end the connection.
func (c *Cluster) SetLookupHook(f func(topic string) bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.onLook = f
}

// SetCreateHook decides about requests to create topics; new topics have no
// leaders for a while.
func (c *Cluster) SetCreateHook(f func(topic string) Action, hide time.Duration) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.onMake, c.hide = f, hide
}

// SetDefaultHooks sets the hooks of topics created through the protocol.
func (c *Cluster) SetDefaultHooks(h *Hooks) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.def = h
}

// find returns the partition if this broker leads it.
func (c *Cluster) find(id int32, name string, part int32) (*Topic, *partition, int16) {
	t := c.topics[name]
	if t == nil || int(part) >= len(t.parts) {
		return t, nil, 3
	}
	p := t.parts[part]
	if p.leader != id {
		return t, nil, 6
	}
	return t, p, 0
}

func (c *Cluster) produce(id int32, ver int16, r *reader, w *writer) (reply, drop bool) {
	if ver >= 3 {
		r.str()
	}
	acks := r.i16()
	r.i32()
	nt := r.i32()
	w.i32(nt)
	for i := int32(0); i < nt; i++ {
		name := r.str()
		np := r.i32()
		w.str(name)
		w.i32(np)
		for j := int32(0); j < np; j++ {
			part := r.i32()
			recs := append([]byte{}, r.bytes()...)
			c.mu.Lock()
			t, p, code := c.find(id, name, part)
			c.mu.Unlock()
			var base int64 = -1
			if p != nil {
				t.Produces.Add(1)
				t.Acks.Store(int64(acks))
				var a Action
				if t.hooks.Produce != nil {
					a = t.hooks.Produce(name, part)
				}
				if a.Delay > 0 {
					time.Sleep(a.Delay)
				}
				if a.DropBefore {
					return false, true
				}
				code = a.Err
				if a.Err == 0 {
					for len(recs) >= 61 {
						l := 12 + int(binary.BigEndian.Uint32(recs[8:]))
						cnt := int(binary.BigEndian.Uint32(recs[57:]))
						ts := int64(binary.BigEndian.Uint64(recs[35:]))
						c.mu.Lock()
						b := p.append(recs[:l:l], cnt, ts)
						c.mu.Unlock()
						if base < 0 {
							base = b
						}
						recs = recs[l:]
					}
				}
				if a.DropAfter {
					return false, true
				}
			}
			w.i32(part)
			w.i16(code)
			w.i64(base)
			if ver >= 2 {
				w.i64(-1)
			}
			if ver >= 5 {
				w.i64(0)
			}
		}
	}
	if ver >= 1 {
		w.i32(0)
	}
	return acks != 0, false
}

func (c *Cluster) offsets(id int32, ver int16, r *reader, w *writer) bool {
	r.i32()
	if ver >= 2 {
		r.i8()
	}
	nt := r.i32()
	if ver >= 2 {
		w.i32(0)
	}
	w.i32(nt)
	for i := int32(0); i < nt; i++ {
		name := r.str()
		np := r.i32()
		w.str(name)
		w.i32(np)
		for j := int32(0); j < np; j++ {
			part := r.i32()
			ts := r.i64()
			if ver == 0 {
				r.i32()
			}
			c.mu.Lock()
			t, p, code := c.find(id, name, part)
			c.mu.Unlock()
			if p != nil && t.hooks.Offsets != nil {
				a := t.hooks.Offsets(name, part)
				time.Sleep(a.Delay)
				if a.DropBefore || a.DropAfter {
					return true
				}
				code = a.Err
			}
			off, ots := int64(-1), int64(-1)
			if p != nil && code == 0 {
				c.mu.Lock()
				switch ts {
				case -1:
					off = p.hwm
				case -2:
					off = p.start
				default:
					for _, b := range p.batches {
						rs, _ := decodeBatch(b.raw)
						for _, x := range rs {
							if x.Time >= ts && off < 0 && b.base+x.Offset >= p.start {
								off, ots = b.base+x.Offset, x.Time
							}
						}
					}
				}
				c.mu.Unlock()
			}
			w.i32(part)
			w.i16(code)
			if ver >= 1 {
				w.i64(ots)
				w.i64(off)
			} else {
				w.i32(1)
				w.i64(off)
			}
		}
	}
	return false
}

type fetchPart struct {
	topic string
	part  int32
	off   int64
	max   int32
}

func (c *Cluster) fetch(id int32, ver int16, r *reader, w *writer) bool {
	r.i32()
	wait := time.Duration(r.i32()) * time.Millisecond
	r.i32()
	if ver >= 3 {
		r.i32()
	}
	if ver >= 4 {
		r.i8()
	}
	if ver >= 7 {
		r.i32()
		r.i32()
	}
	var order []string
	req := map[string][]fetchPart{}
	for n := r.i32(); n > 0; n-- {
		name := r.str()
		order = append(order, name)
		for m := r.i32(); m > 0; m-- {
			f := fetchPart{topic: name, part: r.i32()}
			if ver >= 9 {
				r.i32()
			}
			f.off = r.i64()
			if ver >= 5 {
				r.i64()
			}
			f.max = r.i32()
			req[name] = append(req[name], f)
		}
	}
	limit := 1 << 30
	held := map[fetchPart]bool{}
	var ferr int16
	closed := len(order) > 0
	for _, name := range order {
		for _, f := range req[name] {
			c.mu.Lock()
			t := c.topics[name]
			c.mu.Unlock()
			if t == nil {
				continue
			}
			if !t.closed.Load() {
				closed = false
			}
			t.Fetches.Add(1)
			t.noteFetch(f.part, f.off)
			t.MaxWait.Store(wait.Milliseconds())
			t.MaxBytes.Store(int64(f.max))
			if t.hooks.Fetch == nil {
				continue
			}
			a := t.hooks.Fetch(name, f.part)
			if a.Delay > 0 {
				time.Sleep(a.Delay)
			}
			if a.DropBefore || a.DropAfter {
				return true
			}
			if a.Batches > 0 && a.Batches < limit {
				limit = a.Batches
			}
			if a.Err != 0 {
				ferr = a.Err
			}
			if a.Hold {
				held[f] = true
			}
		}
	}
	if closed {
		time.Sleep(4 * time.Second)
		wait = 0
	}
	deadline := time.Now().Add(wait)
	type part struct {
		f    fetchPart
		code int16
		hwm  int64
		data []byte
	}
	var res map[string][]part
	for {
		res = map[string][]part{}
		any := false
		c.mu.Lock()
		for _, name := range order {
			for _, f := range req[name] {
				_, p, code := c.find(id, name, f.part)
				x := part{f: f, code: code, hwm: -1}
				if p != nil {
					x.hwm = p.hwm
					x.code = ferr
					if ferr == 0 && (f.off < p.start || f.off > p.hwm) {
						x.code = 1
					}
					if x.code == 0 && !held[f] {
						size, k := 0, 0
						for _, b := range p.batches {
							if b.base+int64(b.n) <= f.off {
								continue
							}
							if k > 0 && (k >= limit || size+len(b.raw) > int(f.max)) {
								break
							}
							x.data = append(x.data, b.raw...)
							size += len(b.raw)
							k++
							if s := &c.topics[name].served[f.part]; s.Load() < b.base+int64(b.n) {
								s.Store(b.base + int64(b.n))
							}
						}
					}
				}
				if x.code != 0 || len(x.data) > 0 {
					any = true
				}
				res[name] = append(res[name], x)
			}
		}
		c.mu.Unlock()
		if any || time.Now().After(deadline) {
			break
		}
		time.Sleep(4 * time.Millisecond)
	}
	w.i32(0)
	if ver >= 7 {
		w.i16(0)
		w.i32(0)
	}
	w.i32(int32(len(order)))
	for _, name := range order {
		w.str(name)
		w.i32(int32(len(res[name])))
		for _, x := range res[name] {
			w.i32(x.f.part)
			w.i16(x.code)
			w.i64(x.hwm)
			if ver >= 4 {
				w.i64(x.hwm)
			}
			if ver >= 5 {
				w.i64(0)
			}
			if ver >= 4 {
				w.i32(-1)
			}
			if ver >= 11 {
				w.i32(-1)
			}
			w.bytes(x.data)
		}
	}
	return false
}
