//go:build go1.21

package tp

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

func init() {
	registry["C15"] = func(r *core.Run) {
		r.Cases("live", r.Pick(900, 20000), c15live)
		r.Cases("raw", r.Pick(500, 10000), c15raw)
	}
	registry["C16"] = func(r *core.Run) {
		r.Cases("proxy", r.Pick(350, 7000), c16proxy)
		r.Cases("script", r.Pick(500, 10000), c16script)
	}
}

func wsGen(c *core.C) *core.Gen {
	g := core.NewGen(c.R, uint64(c.Rnd))
	g.TextKeys = true
	return g
}

func wsConsumer(c *core.C, url string, cfg *delivery.ConsumerConfig, R *rand.Rand) transports.Consumer {
	var cs transports.Consumer
	var err error
	if R.Intn(3) == 0 {
		cs, err = transports.ResolveMuxConsumer([]transports.BrokerParams{{URL: url}}, nil, cfg)
	} else {
		cs, err = transports.ResolveConsumer(url, "unused", nil, nil, 0, cfg)
	}
	if err != nil {
		c.Violate("consumer-error", "ResolveConsumer(%s): %v", url, err)
		c.Abort()
	}
	return cs
}

// tally counts how often each block is handed over, whole.
type tally struct {
	mu  sync.Mutex
	n   map[types.Hash]int
	sub types.Subscription
	ch  chan *delivery.PendingBatch
	end chan struct{}
}

func newTally(cs transports.Consumer) *tally {
	t := &tally{n: map[types.Hash]int{}, ch: make(chan *delivery.PendingBatch), end: make(chan struct{})}
	t.sub = cs.Subscribe(t.ch)
	go func() {
		for {
			select {
			case pb := <-t.ch:
				t.mu.Lock()
				t.n[pb.Hash]++
				t.mu.Unlock()
			case <-t.end:
				t.sub.Unsubscribe()
				return
			}
		}
	}()
	return t
}

func (t *tally) get(h types.Hash) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.n[h]
}

// whole checks that every block was handed over once, and ends the tally.
func (t *tally) whole(c *core.C, w *world) {
	var missing *core.Block
	if !wait(patience, func() bool {
		missing = nil
		for _, b := range w.blocks {
			if t.get(b.Hash) == 0 {
				missing = b
				return false
			}
		}
		return true
	}) {
		c.Violate("lost", "block %s was not handed over within %v", w.name[missing.Hash], patience)
	}
	close(t.end)
	for _, b := range w.blocks {
		if m := t.get(b.Hash); m > 1 {
			c.Violate("twice", "block %s was handed over %d times", w.name[b.Hash], m)
		}
	}
}

// c15live: consumers that start anywhere, at any time, apply what they missed
// and what is added, with its content, up to the heaviest block.
func c15live(c *core.C) {
	R := c.R
	g := wsGen(c)
	late := R.Intn(12) == 0 // the parts of hundreds of blocks come after all of them
	size := 2 + R.Intn(50)
	if late {
		size = 60 + R.Intn(160)
		c.Count("parts_last", 1)
	}
	w := newWorld(c, g, newSchema(c, g), size, []int{0, 20, 50}[R.Intn(3)], []int{0, 3, 8}[R.Intn(3)])
	if R.Intn(8) == 0 {
		for _, b := range w.blocks { // weights of up to 32 bytes
			b.Weight = new(big.Int).Add(b.Weight, new(big.Int).Lsh(big.NewInt(1), 255))
		}
		c.Count("heavy_worlds", 1)
	}
	if R.Intn(12) == 0 {
		v := make([]byte, 100000+R.Intn(1<<20))
		R.Read(v)
		w.blocks[R.Intn(len(w.blocks))].Updates["big"] = v
		c.Count("big_blocks", 1)
	}
	st := newStore(w.start.Hash)
	if R.Intn(4) == 0 {
		st.nap = time.Duration(R.Intn(1500)) * time.Microsecond
	}
	n := node(c, st)
	px := newProxy(c, n, func(int) plan { return plan{slow: R.Intn(8) == 0} })
	cut := []int{0, R.Intn(len(w.blocks)), R.Intn(len(w.blocks)), len(w.blocks)}[R.Intn(4)]
	produceWS(c, n.p, st, w.blocks[:cut], R, 0, false)
	k := 1 + R.Intn(3)
	type one struct {
		cs transports.Consumer
		a  *app
		t  *tally
	}
	var mu sync.Mutex
	var ones []one
	var wg sync.WaitGroup
	ahead := []int{0, 0, 3}[R.Intn(3)]
	for i := 0; i < k; i++ {
		cfg := w.cfg(128)
		if R.Intn(2) == 0 && cut > 0 { // one of the blocks of the heaviest chain so far
			best := w.start
			for _, b := range w.blocks[:cut] {
				if b.Weight.Cmp(best.Weight) > 0 {
					best = b
				}
			}
			for back := R.Intn(6); back > 0 && w.get(best.Parent) != nil; back-- {
				best = w.get(best.Parent)
			}
			if best != w.start {
				cfg.LastEmittedNum, cfg.LastHash, cfg.LastWeight = best.Number, best.Hash, best.Weight
			}
		}
		wg.Add(1)
		go func(R *rand.Rand, i int) {
			defer wg.Done()
			if ahead > 0 {
				time.Sleep(time.Duration(R.Intn(40)) * time.Millisecond)
			}
			cs := wsConsumer(c, px.url(R), cfg, R)
			o := one{cs: cs, a: newApp(c, w, fmt.Sprintf("app%d", i), cfg)}
			o.a.attach(cs, []int{0, 1, 200}[R.Intn(3)])
			if R.Intn(2) == 0 {
				o.t = newTally(cs)
			}
			mu.Lock()
			ones = append(ones, o)
			mu.Unlock()
			var err error
			if !within(patience, func() { err = cs.Start() }) {
				c.Violate("start-stuck", "Start did not return within %v", patience)
			} else if err != nil {
				c.Violate("start-error", "Start: %v", err)
			}
		}(rand.New(rand.NewSource(R.Int63())), i)
	}
	if ahead == 0 {
		wg.Wait()
	}
	lag := R.Intn(4)
	if late {
		lag = -1
	}
	if !within(patience, func() { produceWS(c, n.p, st, w.blocks[cut:], R, lag, R.Intn(2) == 0) }) {
		c.Violate("produce-stuck", "producing %d blocks did not finish within %v", len(w.blocks)-cut, patience)
		return
	}
	wg.Wait()
	limit := time.Now().Add(patience)
	sum := 0
	for _, o := range ones {
		goal := w.heaviestOn(o.a.base)
		if o.a.base != goal.Hash && !o.a.await(goal, time.Until(limit)) {
			c.Violate("not-converged", "%v after everything was produced the head is %s, expected %s (of %d blocks, %d before the start)", patience, o.a.nm(o.a.tip()), o.a.nm(goal.Hash), len(w.blocks), cut)
			return
		}
		if R.Intn(3) == 0 {
			select {
			case <-o.cs.Ready():
				c.Count("ready_seen", 1)
			case <-time.After(patience):
				c.Violate("never-ready", "the consumer has all blocks but is not ready after %v", patience)
			}
		}
		o.a.detach()
		if o.t != nil {
			for _, b := range w.blocks {
				if m := o.t.get(b.Hash); m > 1 {
					c.Violate("twice", "block %s was handed over %d times", o.a.nm(b.Hash), m)
				}
			}
			close(o.t.end)
		}
		closeConsumer(c, o.cs)
		sum += o.a.updates
	}
	px.close()
	n.give()
	c.Count("consumers", k)
	c.Distinct(len(w.blocks), cut, k, sum, st.calls)
	c.Sample("%d blocks, %d before the start, %d consumers, %d updates", len(w.blocks), cut, k, sum)
}

// dialRaw opens a connection to a websocket producer and makes a call.
func dialRaw(c *core.C, px *proxy, call obj) *websocket.Conn {
	conn, _, err := websocket.DefaultDialer.Dial("ws://"+px.ln.Addr().String(), nil)
	if err != nil {
		c.Violate("dial", "%v", err)
		c.Abort()
	}
	conn.WriteJSON(call)
	return conn
}

// unhex decodes a quantity.
func unhex(v interface{}) (*big.Int, bool) {
	s, ok := v.(string)
	if !ok || len(s) < 3 || s[:2] != "0x" {
		return nil, false
	}
	return new(big.Int).SetString(s[2:], 16)
}

// sameBlock compares a block with a message of its wire form, read without the
// code under test.
func sameBlock(m obj, b *core.Block, whole bool) string {
	want, _ := json.Marshal(norm(wireBatch(b, whole)))
	got, _ := json.Marshal(norm(m))
	if !bytes.Equal(want, got) {
		return fmt.Sprintf("got %.400s, want %.400s", got, want)
	}
	return ""
}

// norm gives a message a canonical form: JSON types only, lists sorted, absent
// and empty collections alike.
func norm(v interface{}) interface{} {
	b, _ := json.Marshal(v)
	var x interface{}
	json.Unmarshal(b, &x)
	var walk func(interface{}) interface{}
	walk = func(v interface{}) interface{} {
		switch t := v.(type) {
		case map[string]interface{}:
			out := map[string]interface{}{}
			for k, e := range t {
				if e = walk(e); e != nil {
					out[k] = e
				}
			}
			if len(out) == 0 {
				return nil
			}
			return out
		case []interface{}:
			if len(t) == 0 {
				return nil
			}
			s := []string{}
			for _, e := range t {
				s = append(s, fmt.Sprint(e))
			}
			sort.Strings(s)
			u := s[:1]
			for _, e := range s[1:] {
				if e != u[len(u)-1] {
					u = append(u, e)
				}
			}
			return u
		}
		return v
	}
	return walk(x)
}

// c15raw: what the producer puts on the wire, read by an independent client.
func c15raw(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := newWorld(c, g, newSchema(c, g), 2+R.Intn(20), []int{0, 30}[R.Intn(2)], []int{0, 3, 8}[R.Intn(3)])
	st := newStore(w.start.Hash)
	n := node(c, st)
	px := newProxy(c, n, func(int) plan { return plan{} })
	defer func() { px.close(); n.give() }()
	cut := R.Intn(len(w.blocks) + 1)
	produceWS(c, n.p, st, w.blocks[:cut], R, 0, false)
	from := w.start
	if cut > 0 && R.Intn(2) == 0 {
		from = w.blocks[R.Intn(cut)]
	}
	missed := st.after(from.Hash)
	conn := dialRaw(c, px, obj{"jsonrpc": "2.0", "id": 7, "method": "cardinal_subscribe", "params": []string{"streams", fmt.Sprintf("0x%x", from.Number), hx(from.Hash[:])}})
	defer conn.Close()
	conn.SetReadDeadline(time.Now().Add(patience))
	subid := ""
	var queue []obj
	next := func() obj {
		for {
			if subid != "" && len(queue) > 0 {
				m := queue[0]
				queue = queue[1:]
				if m["subscription"] != subid {
					c.Violate("wire", "a notification of subscription %v, expected %v", m["subscription"], subid)
				}
				r, _ := m["result"].(map[string]interface{})
				return r
			}
			var m obj
			if err := conn.ReadJSON(&m); err != nil {
				c.Violate("wire", "reading: %v", err)
				c.Abort()
			}
			if m["method"] == "cardinal_subscribe" {
				p, _ := m["params"].(map[string]interface{})
				queue = append(queue, p)
			} else if fmt.Sprint(m["id"]) == "7" {
				subid, _ = m["result"].(string)
				if _, ok := unhex(subid); !ok {
					c.Violate("wire", "no subscription id in %v", m)
					c.Abort()
				}
			}
		}
	}
	for i, b := range missed {
		m := next()
		if d := sameBlock(m, b, true); d != "" {
			c.Violate("replay", "message %d of the replay: %s", i, d)
			return
		}
		c.Count("replayed", 1)
	}
	if m := next(); m["type"] != "ready" {
		c.Violate("no-ready", "after the %d missed blocks there is %.300v instead of a ready message", len(missed), m)
		return
	}
	// the feed, in order
	var want []func(m obj) string
	step := func() {
		for i := range want {
			if d := want[i](next()); d != "" {
				c.Violate("live", "%s", d)
				return
			}
			c.Count("live_messages", 1)
		}
		want = nil
	}
	for _, b := range w.blocks[cut:] {
		b := b
		st.put(b)
		if err := addBlock(n.p, b); err != nil {
			c.Violate("add-block", "AddBlock: %v", err)
		}
		want = append(want, func(m obj) string { return sameBlock(m, b, false) })
		for _, i := range R.Perm(len(b.Subs)) {
			s := b.Subs[i]
			if R.Intn(6) == 0 {
				if err := n.p.SendBatch(g.NewHash('?'), nil, nil); err != delivery.ErrUnknownBatch {
					c.Violate("unknown-batch", "SendBatch of an unknown batch: %v", err)
				}
			}
			if err := n.p.SendBatch(s.ID, s.Deletes, s.Updates); err != nil {
				c.Violate("send-batch", "SendBatch: %v", err)
			}
			if R.Intn(6) == 0 {
				if err := n.p.SendBatch(s.ID, s.Deletes, s.Updates); err != delivery.ErrUnknownBatch {
					c.Violate("batch-twice", "SendBatch of a batch sent before: %v", err)
				}
			}
			want = append(want, func(m obj) string {
				x, _ := json.Marshal(norm(wireSub(b, s)))
				y, _ := json.Marshal(norm(m))
				if !bytes.Equal(x, y) {
					return fmt.Sprintf("got %.400s, want %.400s", y, x)
				}
				return ""
			})
		}
		if R.Intn(8) == 0 {
			to := w.blocks[R.Intn(len(w.blocks))]
			done, err := n.p.Reorg(to.Number, to.Hash)
			if err != nil {
				c.Violate("reorg", "Reorg: %v", err)
			} else {
				done()
			}
			want = append(want, func(m obj) string {
				p, _ := m["batch"].(map[string]interface{})
				num, ok := unhex(p["number"])
				if m["type"] != "reorg" || p["hash"] != hx(to.Hash[:]) || !ok || num.Int64() != to.Number {
					return fmt.Sprintf("got %.300v, want the reorg to %d %x", m, to.Number, to.Hash[:])
				}
				return ""
			})
			c.Count("reorg_notices", 1)
		}
		if R.Intn(3) == 0 {
			step()
		}
	}
	step()
	// blocks by number
	asked := 0
	for i := 0; i < 1+R.Intn(3); i++ {
		num := w.start.Number - 2 + int64(R.Intn(len(w.blocks)+5))
		if num < 0 {
			continue
		}
		conn := dialRaw(c, px, obj{"jsonrpc": "2.0", "id": 9, "method": "cardinal_streamsBlock", "params": []string{"0x" + strconv.FormatInt(num, 16)}})
		conn.SetReadDeadline(time.Now().Add(patience))
		var m obj
		err := conn.ReadJSON(&m)
		conn.Close()
		if err != nil {
			c.Violate("lookup", "reading: %v", err)
			return
		}
		var b *core.Block
		for _, x := range st.after(types.Hash{}) {
			if x.Number == num {
				b = x
			}
		}
		res, _ := m["result"].(map[string]interface{})
		switch {
		case b == nil && (m["error"] == nil || res != nil):
			c.Violate("lookup", "block %d, which is not there: %.300v", num, m)
		case b != nil:
			if d := sameBlock(res, b, true); d != "" {
				c.Violate("lookup", "block %d: %s (error %v)", num, d, m["error"])
			}
		}
		asked++
	}
	c.Count("lookups", asked)
	c.Distinct(len(w.blocks), cut, len(missed), asked, c.Rnd%16)
	c.Sample("%d blocks, %d missed, %d lookups", len(w.blocks), len(missed), asked)
}

// c16proxy: connections are refused, and lost after any number of bytes;
// subscriptions fail. The consumer ends up with everything.
func c16proxy(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := newWorld(c, g, newSchema(c, g), 5+R.Intn(50), []int{0, 20, 50}[R.Intn(3)], []int{0, 3, 8}[R.Intn(3)])
	st := newStore(w.start.Hash)
	n := node(c, st)
	losses := 1 + R.Intn(12)
	refusals := 0
	if R.Intn(4) == 0 {
		refusals = 1 + R.Intn(2)
	}
	if R.Intn(6) == 0 {
		st.fails = 1 + R.Intn(2)
	}
	pr := rand.New(rand.NewSource(R.Int63()))
	var pmu sync.Mutex
	left := losses
	px := newProxy(c, n, func(i int) plan {
		pmu.Lock()
		defer pmu.Unlock()
		var pl plan
		if i > 0 && refusals > 0 && pr.Intn(3) == 0 {
			refusals--
			pl.refuse = true
			c.Tracef("connection %d: refused", i)
			return pl
		}
		if left > 0 {
			left--
			switch pr.Intn(4) {
			case 0:
				pl.cut = int64(1 + pr.Intn(600))
			case 1:
				pl.cut = int64(300 + pr.Intn(20000))
			case 2:
				pl.after = time.Duration(1+pr.Intn(40)) * time.Millisecond
			case 3:
				pl.cut = int64(1 + pr.Intn(5000))
				pl.after = time.Duration(1+pr.Intn(60)) * time.Millisecond
			}
			c.Tracef("connection %d: lost after %d bytes or %v", i, pl.cut, pl.after)
		}
		return pl
	})
	cut := R.Intn(len(w.blocks))
	produceWS(c, n.p, st, w.blocks[:cut], R, 0, false)
	cfg := w.cfg(128)
	cs := wsConsumer(c, px.url(R), cfg, R)
	a := newApp(c, w, "app", cfg)
	a.attach(cs, []int{0, 1, 200}[R.Intn(3)])
	t := newTally(cs)
	startConsumer(c, cs)
	if !within(patience, func() { produceWS(c, n.p, st, w.blocks[cut:], R, R.Intn(6), true) }) {
		c.Violate("produce-stuck", "producing %d blocks did not finish within %v", len(w.blocks)-cut, patience)
		return
	}
	goal := w.heaviest()
	if !a.await(goal, patience) {
		c.Violate("not-converged", "%v after everything was produced the head is %s, expected %s (of %d blocks, %d before the start; %d connections)", patience, a.nm(a.tip()), a.nm(goal.Hash), len(w.blocks), cut, px.seen)
		return
	}
	select {
	case <-cs.Ready():
	case <-time.After(patience):
		c.Violate("never-ready", "the consumer has all blocks but is not ready after %v", patience)
	}
	if r := cs.Waiter().WaitForHashResult(goal.Hash, 20*time.Second); r != waiter.Success && r != waiter.NotFound {
		c.Violate("waiter", "waiting for the applied head: %v", r)
	}
	a.detach()
	t.whole(c, w)
	closeConsumer(c, cs)
	px.close()
	n.give()
	c.Count("connections", px.seen)
	c.Count("connections_lost", int(px.cuts.Load()))
	c.Distinct(len(w.blocks), cut, px.seen, a.updates, px.cuts.Load())
	c.Sample("%d blocks, %d before the start, %d connections (%d lost), %d updates", len(w.blocks), cut, px.seen, px.cuts.Load(), a.updates)
}

// c16script: a server that sends blocks' parts in any order, early, late and
// again, and hangs up at any moment. The consumer asks for what it misses.
func c16script(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := newWorld(c, g, newSchema(c, g), 5+R.Intn(50), []int{0, 20, 50}[R.Intn(3)], []int{0, 3, 8}[R.Intn(3)])
	st := newStore(w.start.Hash)
	for _, b := range w.blocks {
		st.put(b)
	}
	left := 1 + R.Intn(10)
	bad := R.Intn(3)  // connections that don't get a subscription
	var mu sync.Mutex // connections don't overlap, but the old handler may linger
	known := map[types.Hash]int{w.start.Hash: -1}
	var froms []string
	done := make(chan struct{})
	srv := newServer(func(i int, k *wsConn) {
		mu.Lock()
		defer mu.Unlock()
		from, ok := st.pos[k.hash]
		if !ok {
			if k.hash != w.start.Hash {
				c.Violate("resumed-from", "the consumer asks for what follows %x, which it never got", k.hash[:])
			}
			from = -1
		} else {
			if _, ok := known[k.hash]; !ok {
				c.Violate("resumed-from", "the consumer asks for what follows %s, which was never sent whole", w.name[k.hash])
			}
			if b := w.by[k.hash]; b.Number != k.number {
				c.Violate("resumed-from", "the consumer names block %s with the number %d", w.name[k.hash], k.number)
			}
		}
		froms = append(froms, w.name[k.hash])
		c.Tracef("connection %d: asks for what follows %s", i, w.name[k.hash])
		if bad > 0 && R.Intn(3) == 0 {
			bad--
			switch R.Intn(5) {
			case 0:
				k.write(obj{"jsonrpc": "2.0", "id": k.id, "error": obj{"code": -1, "message": "no"}})
			case 1:
				k.write(obj{"jsonrpc": "2.0", "id": k.id, "result": nil})
			case 2:
				k.text([]byte("nonsense"))
			case 3:
				k.write(obj{"jsonrpc": "2.0", "id": k.id, "result": "zz"})
			case 4:
				k.tear(R)
				return
			}
			select {
			case <-k.dead:
			case <-time.After(patience):
				c.Violate("keeps-bad", "the consumer keeps a connection on which subscribing failed")
			}
			c.Count("subscriptions_refused", 1)
			return
		}
		// what will be sent: some blocks whole, others in parts
		type msg struct {
			v   obj
			b   *core.Block
			end bool // the block is whole with this one
		}
		var ms []msg
		whole := len(st.log)
		if R.Intn(3) > 0 {
			whole = from + 1 + R.Intn(len(st.log)-from)
		}
		part := map[*core.Block]int{}
		lag := R.Intn(4)
		var late []msg
		flush := func(n int) {
			for len(late) > n {
				j := R.Intn(len(late))
				ms = append(ms, late[j])
				late = append(late[:j], late[j+1:]...)
			}
		}
		for p := from + 1; p < len(st.log); p++ {
			b := st.log[p]
			if p < whole {
				ms = append(ms, msg{v: wireBatch(b, true), b: b})
				part[b] = 1
				continue
			}
			part[b] = 1 + len(b.Subs)
			if lag > 0 && R.Intn(4) == 0 && len(b.Subs) > 0 { // a batch ahead of its block
				j := R.Intn(len(b.Subs))
				ms = append(ms, msg{v: wireSub(b, b.Subs[j]), b: b})
				for x, s := range b.Subs {
					if x != j {
						late = append(late, msg{v: wireSub(b, s), b: b})
					}
				}
			} else {
				for _, s := range b.Subs {
					late = append(late, msg{v: wireSub(b, s), b: b})
				}
			}
			ms = append(ms, msg{v: wireBatch(b, false), b: b})
			flush(R.Intn(lag*3 + 1))
		}
		flush(0)
		if R.Intn(3) == 0 && whole > from+1 { // some again, as they come between replay and feed
			for p := max(from+1, whole-3); p < whole; p++ {
				b := st.log[p]
				ms = append(ms, msg{v: wireBatch(b, R.Intn(2) == 0), b: b})
				for _, s := range b.Subs {
					ms = append(ms, msg{v: wireSub(b, s), b: b})
				}
			}
		}
		stop := -1
		if left > 0 {
			left--
			stop = R.Intn(len(ms) + 1)
		}
		early := 0
		if R.Intn(3) == 0 {
			early = R.Intn(3)
		}
		accepted := false
		for j := 0; j <= len(ms); j++ {
			if !accepted && (j >= early || j == len(ms)) {
				accepted = true
				if k.accept() != nil {
					return
				}
			}
			if j == stop {
				c.Tracef("connection %d: lost after %d of %d messages", i, j, len(ms))
				k.tear(R)
				return
			}
			if j == len(ms) {
				break
			}
			if R.Intn(12) == 0 {
				switch R.Intn(5) {
				case 0:
					k.WriteControl(websocket.PingMessage, nil, time.Now().Add(time.Second))
				case 1:
					k.text([]byte(""))
				case 2:
					k.write(obj{"jsonrpc": "2.0", "method": "cardinal_subscribe", "params": obj{"subscription": "0x99", "result": ms[R.Intn(len(ms))].v}})
				case 3:
					k.write(obj{"jsonrpc": "2.0", "method": "other_subscribe", "params": obj{"subscription": k.sub, "result": ms[R.Intn(len(ms))].v}})
				case 4:
					k.notify(obj{"type": "ready"})
				}
			}
			b := ms[j].b
			if part[b]--; part[b] == 0 {
				known[b.Hash] = 1
			}
			if k.notify(ms[j].v) != nil {
				return
			}
		}
		k.notify(obj{"type": "ready"})
		select {
		case <-k.dead:
		case <-done:
		}
	})
	cfg := w.cfg(128)
	cs := wsConsumer(c, []string{"ws://", "cardinal://ws://"}[R.Intn(2)]+srv.addr, cfg, R)
	a := newApp(c, w, "app", cfg)
	a.attach(cs, []int{0, 1, 200}[R.Intn(3)])
	t := newTally(cs)
	startConsumer(c, cs)
	goal := w.heaviest()
	if !a.await(goal, patience) {
		c.Violate("not-converged", "after %v the head is %s, expected %s (of %d blocks; connections from %v)", patience, a.nm(a.tip()), a.nm(goal.Hash), len(w.blocks), froms)
	}
	select {
	case <-cs.Ready():
	case <-time.After(patience):
		c.Violate("never-ready", "the consumer has all blocks but is not ready after %v", patience)
	}
	a.detach()
	t.whole(c, w)
	close(done)
	closeConsumer(c, cs)
	srv.close()
	mu.Lock()
	defer mu.Unlock()
	c.Count("connections", len(froms))
	c.Distinct(len(w.blocks), fmt.Sprint(froms), a.updates)
	c.Sample("%d blocks, connections from %v, %d updates", len(w.blocks), froms, a.updates)
}
