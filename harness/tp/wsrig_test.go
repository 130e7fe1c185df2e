//go:build go1.21

package tp

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

// store is what a websocket producer's application keeps of its blocks, in the
// order in which they were added.
type store struct {
	mu    sync.Mutex
	log   []*core.Block
	pos   map[types.Hash]int
	start types.Hash
	fails int           // calls of BlocksFrom yet to fail
	nap   time.Duration // between blocks
	calls int
}

func newStore(start types.Hash) *store { return &store{pos: map[types.Hash]int{}, start: start} }

func (s *store) put(b *core.Block) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.pos[b.Hash] = len(s.log)
	s.log = append(s.log, b)
}

func (s *store) len() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.log)
}

// after gives the blocks added after a given one.
func (s *store) after(h types.Hash) []*core.Block {
	s.mu.Lock()
	defer s.mu.Unlock()
	i := 0
	if k, ok := s.pos[h]; ok {
		i = k + 1
	}
	return append([]*core.Block{}, s.log[i:]...)
}

func pending(b *core.Block) *delivery.PendingBatch {
	v, d := b.Want(core.Schema{}, core.All)
	return &delivery.PendingBatch{Number: b.Number, Hash: b.Hash, ParentHash: b.Parent, Weight: b.Weight, Values: v, Deletes: d}
}

func (s *store) BlocksFrom(ctx context.Context, number uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	s.mu.Lock()
	s.calls++
	if s.fails > 0 {
		s.fails--
		s.mu.Unlock()
		return nil, fmt.Errorf("not now")
	}
	nap := s.nap
	s.mu.Unlock()
	bs := s.after(hash)
	ch := make(chan *delivery.PendingBatch, len(bs)%3)
	go func() {
		defer close(ch)
		for _, b := range bs {
			select {
			case ch <- pending(b):
			case <-ctx.Done():
				return
			}
			if nap > 0 {
				time.Sleep(nap)
			}
		}
	}()
	return ch, nil
}

func (s *store) GetBlock(ctx context.Context, number uint64) *delivery.PendingBatch {
	s.mu.Lock()
	defer s.mu.Unlock()
	for i := len(s.log) - 1; i >= 0; i-- {
		if uint64(s.log[i].Number) == number {
			return pending(s.log[i])
		}
	}
	return nil
}

// wsNode is a real websocket producer. Servers can't be stopped, so they are
// used again for other cases, with another store.
type wsNode struct {
	p     transports.Producer
	addr  string
	cur   atomic.Pointer[store]
	asked atomic.Int64
	set   chan struct{} // one connection is set up or taken down at a time
}

func (n *wsNode) BlocksFrom(ctx context.Context, number uint64, hash types.Hash) (chan *delivery.PendingBatch, error) {
	return n.cur.Load().BlocksFrom(ctx, number, hash)
}

func (n *wsNode) GetBlock(ctx context.Context, number uint64) *delivery.PendingBatch {
	n.asked.Add(1)
	return n.cur.Load().GetBlock(ctx, number)
}

var (
	nodes    []*wsNode
	portBase = 0
)

// freePort finds a port of this worker's own range.
func freePort() int {
	if portBase == 0 {
		sh, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
		portBase = 20000 + sh*400
	}
	for {
		portBase++
		if ln, err := net.Listen("tcp", fmt.Sprintf(":%d", portBase)); err == nil {
			ln.Close()
			return portBase
		}
	}
}

// node takes a websocket producer that no case is using.
func node(c *core.C, st *store) *wsNode {
	if k := len(nodes); k > 0 && (k > 8 || c.R.Intn(4) > 0) {
		i := c.R.Intn(k)
		n := nodes[i]
		nodes = append(nodes[:i], nodes[i+1:]...)
		n.cur.Store(st)
		return n
	}
	for tries := 0; ; tries++ {
		n := &wsNode{set: make(chan struct{}, 1)}
		n.cur.Store(st)
		port := freePort()
		n.addr = fmt.Sprintf("127.0.0.1:%d", port)
		var err error
		u := []string{"ws://", "cardinal://ws://"}[c.R.Intn(2)] + "0.0.0.0:" + fmt.Sprint(port)
		if c.R.Intn(2) == 0 {
			n.p, err = transports.ResolveProducerWithResumer(u, "unused", nil, n)
		} else {
			n.p, err = transports.ResolveMuxProducer([]transports.ProducerBrokerParams{{URL: u}}, n)
		}
		if err != nil {
			c.Violate("producer-error", "creating a producer for %s: %v", u, err)
			c.Abort()
		}
		// somebody else may have taken the port
		if wait(patience/4, func() bool { return n.alive() }) {
			return n
		}
		if tries == 3 {
			c.Violate("not-listening", "the producer for %s does not answer", u)
			c.Abort()
		}
	}
}

// alive asks the node's server for a block, and sees whether the node is asked.
func (n *wsNode) alive() bool {
	conn, _, err := websocket.DefaultDialer.Dial("ws://"+n.addr, nil)
	if err != nil {
		return false
	}
	defer conn.Close()
	before := n.asked.Load()
	conn.WriteJSON(obj{"jsonrpc": "2.0", "id": 1, "method": "cardinal_streamsBlock", "params": []string{"0xffffffff"}})
	conn.SetReadDeadline(time.Now().Add(10 * time.Second))
	conn.ReadMessage()
	raw := conn.UnderlyingConn()
	raw.(*net.TCPConn).CloseWrite()
	io.Copy(io.Discard, raw) // until the server has noticed
	return n.asked.Load() > before
}

// give returns a producer after use.
func (n *wsNode) give() { nodes = append(nodes, n) }

// plan says what happens to a connection.
type plan struct {
	refuse bool
	cut    int64 // lost after this many bytes from the server (0: never)
	after  time.Duration
	slow   bool
}

// proxy stands between consumers and a websocket producer. It loses
// connections as told, and lets only one be set up or taken down at a time:
// the RPC library the server comes from is not safe otherwise.
type proxy struct {
	ln    net.Listener
	n     *wsNode
	plan  func(i int) plan
	mu    sync.Mutex
	conns map[net.Conn]bool
	seen  int
	cuts  atomic.Int64
	wg    sync.WaitGroup
}

func newProxy(c *core.C, n *wsNode, fn func(i int) plan) *proxy {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	p := &proxy{ln: ln, n: n, plan: fn, conns: map[net.Conn]bool{}}
	go func() {
		for {
			cl, err := ln.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			i := p.seen
			p.seen++
			p.conns[cl] = true
			p.mu.Unlock()
			p.wg.Add(1)
			go func() {
				defer p.wg.Done()
				p.serve(cl, fn(i))
				p.mu.Lock()
				delete(p.conns, cl)
				p.mu.Unlock()
			}()
		}
	}()
	return p
}

func (p *proxy) url(R *rand.Rand) string {
	return []string{"ws://", "cardinal://ws://"}[R.Intn(2)] + p.ln.Addr().String()
}

func (p *proxy) open() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.conns)
}

// drop ends all connections.
func (p *proxy) drop() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for cl := range p.conns {
		cl.Close()
	}
}

// close ends all connections, and waits until the server has noticed.
func (p *proxy) close() {
	p.ln.Close()
	p.mu.Lock()
	for cl := range p.conns {
		cl.Close()
	}
	p.mu.Unlock()
	p.wg.Wait()
}

func (p *proxy) serve(cl net.Conn, pl plan) {
	defer cl.Close()
	if pl.refuse {
		return
	}
	p.n.set <- struct{}{}
	setting := true
	sv, err := net.Dial("tcp", p.n.addr)
	if err != nil {
		<-p.n.set
		return
	}
	type chunk struct {
		b   []byte
		err error
	}
	read := func(c net.Conn) chan chunk {
		ch := make(chan chunk)
		go func() {
			for {
				b := make([]byte, 16384)
				n, err := c.Read(b)
				ch <- chunk{b[:n], err}
				if err != nil {
					return
				}
			}
		}()
		return ch
	}
	fromSv, fromCl := read(sv), read(cl)
	var timer <-chan time.Time
	if pl.after > 0 {
		timer = time.After(pl.after)
	}
	var head []byte
	var got int64
	svDone, clDone := false, false
loop:
	for {
		select {
		case k := <-fromCl:
			if len(k.b) > 0 {
				sv.Write(k.b)
			}
			if k.err != nil {
				clDone = true
				break loop
			}
		case k := <-fromSv:
			b := k.b
			if pl.cut > 0 && got+int64(len(b)) >= pl.cut {
				b = b[:pl.cut-got]
			}
			got += int64(len(b))
			if len(b) > 0 {
				cl.Write(b)
			}
			if setting {
				// the handshake, and then the answer to the subscription
				head = append(head, k.b...)
				if i := bytes.Index(head, []byte("\r\n\r\n")); i >= 0 && len(head) > i+4 {
					setting, head = false, nil
					<-p.n.set
				}
			}
			if k.err != nil {
				svDone = true
				break loop
			}
			if pl.cut > 0 && got >= pl.cut {
				p.cuts.Add(1)
				break loop
			}
			if pl.slow {
				time.Sleep(500 * time.Microsecond)
			}
		case <-timer:
			p.cuts.Add(1)
			break loop
		}
	}
	if !setting {
		p.n.set <- struct{}{}
	}
	cl.Close()
	sv.(*net.TCPConn).CloseWrite()
	for !svDone {
		k := <-fromSv
		svDone = k.err != nil
	}
	sv.Close()
	for !clDone {
		k := <-fromCl
		clDone = k.err != nil
	}
	<-p.n.set
}

// produceWS adds blocks in order; their batches are sent by others at the same
// time, in any order, up to lag blocks behind.
func produceWS(c *core.C, p transports.Producer, st *store, bs []*core.Block, R *rand.Rand, lag int, pauses bool) {
	if lag < 0 { // all blocks, and then all of their parts, in any order
		subs := []func() error{}
		for _, b := range bs {
			st.put(b)
			if err := addBlock(p, b); err != nil {
				c.Violate("add-block", "AddBlock: %v", err)
			}
			c.Count("blocks_produced", 1)
			for _, x := range b.Subs {
				x := x
				subs = append(subs, func() error { return p.SendBatch(x.ID, x.Deletes, x.Updates) })
			}
		}
		if R.Intn(3) > 0 {
			R.Shuffle(len(subs), func(i, j int) { subs[i], subs[j] = subs[j], subs[i] })
		}
		for _, fn := range subs {
			if err := fn(); err != nil {
				c.Violate("send-batch", "SendBatch, one of %d after %d blocks: %v", len(subs), len(bs), err)
				return
			}
		}
		return
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, lag+1)
	for _, b := range bs {
		b := b
		st.put(b)
		sem <- struct{}{}
		if err := addBlock(p, b); err != nil {
			c.Violate("add-block", "AddBlock: %v", err)
		}
		c.Count("blocks_produced", 1)
		subs := func(R *rand.Rand) {
			if lag > 0 && R.Intn(3) == 0 {
				time.Sleep(time.Duration(R.Intn(3000)) * time.Microsecond)
			}
			if err := sendSubs(p, b, R); err != nil {
				c.Violate("send-batch", "SendBatch: %v", err)
			}
			<-sem
		}
		if lag == 0 {
			subs(R)
		} else {
			wg.Add(1)
			r := rand.New(rand.NewSource(R.Int63()))
			go func() { defer wg.Done(); subs(r) }()
		}
		if pauses && R.Intn(4) == 0 {
			time.Sleep(time.Duration(R.Intn(10)) * time.Millisecond)
		}
	}
	wg.Wait()
}

// ---- a websocket server of the harness's own

// wsServer speaks the streams protocol as its script says.
type wsServer struct {
	srv    *http.Server
	addr   string
	script func(i int, s *wsConn)
	mu     sync.Mutex
	open   int
	seen   int
	live   map[*wsConn]bool
}

type wsConn struct {
	*websocket.Conn
	raw    net.Conn
	id     json.RawMessage // of the subscription call
	number int64
	hash   types.Hash
	sub    string // subscription id
	wmu    sync.Mutex
	dead   chan struct{}
}

var upgrader = websocket.Upgrader{CheckOrigin: func(*http.Request) bool { return true }}

func newServer(script func(i int, s *wsConn)) *wsServer {
	s := &wsServer{script: script, live: map[*wsConn]bool{}}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s.addr = ln.Addr().String()
	s.srv = &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.mu.Lock()
		i := s.seen
		s.seen++
		s.open++
		s.mu.Unlock()
		defer func() {
			s.mu.Lock()
			s.open--
			s.mu.Unlock()
		}()
		conn, err := upgrader.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer conn.Close()
		k := &wsConn{Conn: conn, raw: conn.UnderlyingConn(), dead: make(chan struct{}), sub: fmt.Sprintf("0x%x", i%4)}
		var call struct {
			ID     json.RawMessage   `json:"id"`
			Method string            `json:"method"`
			Params []json.RawMessage `json:"params"`
		}
		_, m, err := conn.ReadMessage()
		if err != nil {
			return
		}
		if err := json.Unmarshal(m, &call); err != nil || call.Method != "cardinal_subscribe" || len(call.Params) != 3 {
			return
		}
		k.id = call.ID
		var num, hash, what string
		json.Unmarshal(call.Params[0], &what)
		json.Unmarshal(call.Params[1], &num)
		json.Unmarshal(call.Params[2], &hash)
		if what != "streams" {
			return
		}
		n, err := strconv.ParseUint(num, 0, 64)
		if err != nil {
			return
		}
		k.number, k.hash = int64(n), types.HexToHash(hash)
		go func() { // notices when the consumer goes away
			defer close(k.dead)
			for {
				if _, _, err := conn.ReadMessage(); err != nil {
					return
				}
			}
		}()
		s.mu.Lock()
		s.live[k] = true
		s.mu.Unlock()
		script(i, k)
		s.mu.Lock()
		delete(s.live, k)
		s.mu.Unlock()
	})}
	go s.srv.Serve(ln)
	return s
}

func (s *wsServer) conns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.open
}

func (s *wsServer) close() {
	s.srv.Close()
	s.mu.Lock()
	for k := range s.live {
		k.Close()
	}
	s.mu.Unlock()
}

func (k *wsConn) write(v interface{}) error {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return k.text(b)
}

func (k *wsConn) text(b []byte) error {
	k.wmu.Lock()
	defer k.wmu.Unlock()
	return k.WriteMessage(websocket.TextMessage, b)
}

// tear sends part of a message and loses the connection.
func (k *wsConn) tear(R *rand.Rand) {
	switch R.Intn(3) {
	case 0: // the start of a frame
		k.raw.Write([]byte{0x81, 126, 0x10, 0x00, '{', '"'}[:1+R.Intn(6)])
	case 1: // a reset
		k.raw.(*net.TCPConn).SetLinger(0)
	case 2:
		k.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseGoingAway, ""), time.Now().Add(time.Second))
	}
	k.Close()
}

type obj = map[string]interface{}

func hx(b []byte) string { return fmt.Sprintf("0x%x", b) }

// wireBatch is a block's message; with whole set it carries the block's
// batches' content too.
func wireBatch(b *core.Block, whole bool) obj {
	vals, dels := map[string]string{}, []string{}
	batches := map[string]string{}
	for k, v := range b.Updates {
		vals[k] = hx(v)
	}
	for k := range b.Deletes {
		dels = append(dels, k)
	}
	for _, s := range b.Subs {
		if whole {
			for k, v := range s.Updates {
				vals[k] = hx(v)
			}
			dels = append(dels, s.Deletes...)
		} else {
			batches[s.Path] = hx(s.ID[:])
		}
	}
	return obj{"type": "batch", "batch": obj{"number": fmt.Sprintf("0x%x", b.Number), "weight": fmt.Sprintf("0x%x", b.Weight), "hash": hx(b.Hash[:]),
		"parent": hx(b.Parent[:]), "values": vals, "deletes": dels, "batches": batches}}
}

func wireSub(b *core.Block, s core.Sub) obj {
	vals := map[string]string{}
	for k, v := range s.Updates {
		vals[k] = hx(v)
	}
	return obj{"type": "subbatch", "subbatch": obj{"hash": hx(b.Hash[:]), "batchid": hx(s.ID[:]), "values": vals, "deletes": s.Deletes}}
}

func (k *wsConn) accept() error {
	return k.write(obj{"jsonrpc": "2.0", "id": k.id, "result": k.sub})
}

func (k *wsConn) notify(result interface{}) error {
	return k.write(obj{"jsonrpc": "2.0", "method": "cardinal_subscribe", "params": obj{"subscription": k.sub, "result": result}})
}
