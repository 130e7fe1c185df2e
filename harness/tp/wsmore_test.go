//go:build go1.21

package tp

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

func init() {
	registry["C19"] = func(r *core.Run) {
		r.Cases("ws", r.Pick(600, 12000), c19ws)
	}
}

// wsStacks counts the goroutines of websocket consumers.
func wsStacks() (int, string) {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n, sample := 0, ""
	for _, st := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(st, "transports.(*websocketConsumer)") || strings.Contains(st, "transports.(*muxConsumer)") {
			n++
			sample = st
		}
	}
	if len(sample) > 1500 {
		sample = sample[:1500]
	}
	return n, sample
}

// c25ws: wherever a websocket consumer is, Close returns, ends its goroutine
// and connection, and nothing sent later is delivered.
func c25ws(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := newWorld(c, g, newSchema(c, g), 1+R.Intn(40), 0, []int{0, 4}[R.Intn(2)])
	whats := []string{"before start", "while the server is down", "before the handshake", "before the subscription", "in the replay", "in a block", "when ready", "between connections"}
	when := R.Intn(len(whats))
	what := whats[when]
	nap := time.Duration(R.Intn(4)) * time.Millisecond
	var gone atomic.Bool // Close has returned
	var sent atomic.Int64
	end := make(chan struct{})
	srv := newServer(func(i int, k *wsConn) {
		switch what {
		case "before the subscription":
			<-k.dead
			return
		case "between connections":
			if i%2 == 0 {
				k.accept()
				k.notify(obj{"type": "ready"})
			}
			time.Sleep(nap)
			k.tear(rand.New(rand.NewSource(int64(i))))
			return
		}
		k.accept()
		for j, b := range w.blocks {
			if what == "in a block" && j == len(w.blocks)/2 {
				k.notify(obj{"type": "batch", "batch": obj{"number": "0x1", "weight": "0xffffffffffff", "hash": hx(b.Hash[:]), "parent": hx(b.Parent[:]), "values": obj{}, "batches": obj{"x": hx(make([]byte, 32))}}})
				sent.Add(1)
				<-k.dead
				return
			}
			if what == "in the replay" {
				time.Sleep(nap)
			}
			if k.notify(wireBatch(b, true)) != nil {
				return
			}
			sent.Add(1)
		}
		k.notify(obj{"type": "ready"})
		p := w.heaviest()
		for j := 0; j < 50; j++ { // the feed goes on
			b := &core.Block{Number: p.Number + 1, Hash: types.HexToHash(fmt.Sprintf("0x%x%060x", 0xfeed, j)), Parent: p.Hash, Weight: newWeight(w, g, p)}
			if k.notify(wireBatch(b, true)) != nil {
				return
			}
			p = b
			select {
			case <-end:
				return
			case <-k.dead:
				return
			case <-time.After(2 * time.Millisecond):
			}
		}
		select {
		case <-end:
		case <-k.dead:
		}
	})
	defer srv.close()
	addr := srv.addr
	var mute net.Listener
	switch what {
	case "while the server is down":
		ln, _ := net.Listen("tcp", "127.0.0.1:0")
		addr = ln.Addr().String()
		ln.Close()
	case "before the handshake": // accepts, and says nothing
		mute, _ = net.Listen("tcp", "127.0.0.1:0")
		addr = mute.Addr().String()
		go func() {
			var cs []net.Conn
			for {
				k, err := mute.Accept()
				if err != nil {
					for _, k := range cs {
						k.Close()
					}
					return
				}
				cs = append(cs, k)
			}
		}()
	}
	cfg := w.cfg(128)
	cs := wsConsumer(c, []string{"ws://", "cardinal://ws://"}[R.Intn(2)]+addr, cfg, R)
	var got, late atomic.Int64
	ch := make(chan *delivery.ChainUpdate, []int{0, 1, 50}[R.Intn(3)])
	reads := R.Intn(4) > 0 // else nobody reads the subscription
	sub := cs.Subscribe(ch)
	stop, stopped := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(stopped)
		if !reads {
			<-stop
		}
		for {
			select {
			case <-ch:
				got.Add(1)
			case <-stop:
				return
			}
		}
	}()
	starting := make(chan error, 1)
	if when > 0 {
		go func() { starting <- cs.Start() }()
	}
	switch what {
	case "before start", "while the server is down", "before the handshake", "before the subscription":
		time.Sleep(time.Duration(R.Intn(30)) * time.Millisecond)
	case "in the replay":
		k := int64(R.Intn(len(w.blocks)))
		wait(2*time.Second, func() bool { return sent.Load() >= k })
	case "in a block":
		wait(2*time.Second, func() bool { return sent.Load() > int64(len(w.blocks)/2) })
		time.Sleep(time.Duration(R.Intn(3)) * time.Millisecond)
	case "when ready":
		select {
		case <-cs.Ready():
		case <-time.After(2 * time.Second): // an unread subscription may be in the way
		}
		time.Sleep(time.Duration(R.Intn(10)) * time.Millisecond)
	case "between connections":
		time.Sleep(time.Duration(R.Intn(20)) * time.Millisecond)
	}
	n := 1 + R.Intn(3)
	t0 := time.Now()
	if R.Intn(3) == 0 {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); cs.Close() }()
		}
		if !within(patience, wg.Wait) {
			c.Violate("close-stuck", "%d concurrent calls of Close (%s) did not return within %v", n, what, patience)
			return
		}
	} else {
		for i := 0; i < n; i++ {
			closeConsumer(c, cs)
		}
	}
	took := time.Since(t0)
	gone.Store(true)
	if mute != nil {
		mute.Close()
	}
	if when == 0 && R.Intn(2) == 0 { // starting what was closed does nothing
		go func() { starting <- cs.Start() }()
		when = 1
		what = "before start, started later"
	}
	if when > 0 {
		select {
		case <-starting:
		case <-time.After(patience):
			c.Violate("start-stuck", "Start had not returned %v after Close (%s)", patience, what)
			return
		}
	}
	var left int
	var sample string
	quiet := func() bool { left, sample = wsStacks(); return left == 0 }
	if !reads {
		// what was on its way is delivered first
		close(stop)
		<-stopped
		stop, stopped = make(chan struct{}), make(chan struct{})
		go func() {
			defer close(stopped)
			for {
				select {
				case <-ch:
				case <-stop:
					return
				}
			}
		}()
	}
	if !wait(patience, quiet) {
		c.Violate("goroutines", "%v after Close (%s) %d goroutines are left, such as %s", patience, what, left, sample)
	}
	if !wait(patience, func() bool { return srv.conns() == 0 }) {
		c.Violate("connections", "%v after Close (%s) %d connections to the server are left", patience, what, srv.conns())
	}
	before := srv.seen
	// the orderer may still have some of what was received
	wait(time.Second, func() bool { k := got.Load(); time.Sleep(3 * time.Millisecond); return got.Load() == k })
	k := got.Load()
	time.Sleep(time.Duration(5+R.Intn(20)) * time.Millisecond)
	if got.Load() != k {
		late.Add(1)
		c.Violate("after-close", "blocks are still delivered after Close (%s)", what)
	}
	if srv.seen != before {
		c.Violate("redial", "the consumer connects again after Close (%s)", what)
	}
	close(end)
	close(stop)
	<-stopped
	sub.Unsubscribe()
	c.Count("closed_"+strings.ReplaceAll(what, " ", "_"), 1)
	c.Max("max_close_ms", took.Milliseconds())
	c.Distinct(what, reads, n, len(w.blocks), k)
	c.Sample("closed %s after %d updates, in %v", what, k, took.Round(time.Millisecond))
}

// c29ws: a websocket consumer is ready once the blocks the application had
// when it started were handed to its subscribers.
func c29ws(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := newWorld(c, g, newSchema(c, g), 1+R.Intn(120), []int{0, 30}[R.Intn(2)], []int{0, 4}[R.Intn(2)])
	st := newStore(w.start.Hash)
	st.nap = time.Duration(R.Intn(3)*R.Intn(1000)) * time.Microsecond
	n := node(c, st)
	losses := R.Intn(3) * R.Intn(4)
	var pmu sync.Mutex
	pr := rand.New(rand.NewSource(R.Int63()))
	px := newProxy(c, n, func(int) plan {
		pmu.Lock()
		defer pmu.Unlock()
		if losses == 0 {
			return plan{slow: pr.Intn(4) == 0}
		}
		losses--
		return plan{cut: int64(1 + pr.Intn(20000)), slow: pr.Intn(4) == 0}
	})
	n0 := R.Intn(len(w.blocks) + 1)
	produceWS(c, n.p, st, w.blocks[:n0], R, 0, false)
	cfg := w.cfg(128)
	cs := wsConsumer(c, px.url(R), cfg, R)
	nap := time.Duration(R.Intn(3)*R.Intn(3)) * time.Millisecond
	stall := -1
	if R.Intn(4) == 0 {
		stall = R.Intn(n0 + 1)
	}
	var gmu sync.Mutex
	got := map[types.Hash]bool{}
	pbs := make(chan *delivery.PendingBatch)
	sub := cs.Subscribe(pbs)
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case pb := <-pbs:
				gmu.Lock()
				got[pb.Hash] = true
				k := len(got)
				gmu.Unlock()
				time.Sleep(nap)
				if k == stall+1 {
					time.Sleep(300 * time.Millisecond)
				}
			case <-stop:
				sub.Unsubscribe()
				return
			}
		}
	}()
	a := newApp(c, w, "app", cfg)
	a.attach(cs, 200)
	isReady := cs.Ready()
	prod := make(chan struct{})
	startConsumer(c, cs)
	pr2 := rand.New(rand.NewSource(R.Int63()))
	go func() {
		defer close(prod)
		produceWS(c, n.p, st, w.blocks[n0:], pr2, 2, true)
	}()
	if R.Intn(2) == 0 {
		isReady = cs.Ready()
	}
	select {
	case <-isReady:
		lacking := func() (k int, which *core.Block) {
			gmu.Lock()
			defer gmu.Unlock()
			for _, b := range w.blocks[:n0] {
				if !got[b.Hash] {
					k++
					which = b
				}
			}
			return
		}
		k, b := lacking()
		if k == 1 { // it may be in the subscriber's hands, yet to be noted
			wait(100*time.Millisecond, func() bool { k, _ = lacking(); return k == 0 })
		}
		if k > 0 {
			c.Violate("early", "ready, but %d of the %d blocks that were there at the start, such as %s, were not handed to a subscriber", k, n0, a.nm(b.Hash))
		}
		c.Count("ready", 1)
	case <-time.After(patience):
		c.Violate("never-ready", "not ready %v after starting on %d blocks", patience, n0)
	}
	if !within(patience, func() { <-prod }) {
		c.Violate("produce-stuck", "producing %d blocks did not finish within %v", len(w.blocks)-n0, patience)
		return
	}
	if !a.await(w.heaviest(), patience) {
		c.Violate("not-converged", "ready, but the head is %s, expected %s", a.nm(a.tip()), a.nm(w.heaviest().Hash))
	}
	select {
	case <-cs.Ready():
	case <-time.After(5 * time.Second):
		c.Violate("unready", "no longer ready")
	}
	a.detach()
	close(stop)
	closeConsumer(c, cs)
	px.close()
	n.give()
	c.Count("backlog_blocks", n0)
	c.Distinct(len(w.blocks), n0, nap, stall, px.seen)
	c.Sample("%d blocks at the start of %d, %d connections", n0, len(w.blocks), px.seen)
}

// malformed draws a message a server should not send.
func malformed(R *rand.Rand, w *world) interface{} {
	b := w.blocks[R.Intn(len(w.blocks))]
	batch := func() obj { return wireBatch(b, true)["batch"].(obj) }
	other := batch() // never sent: a block of its own
	h := types.HexToHash(fmt.Sprintf("0xbad%061x", R.Intn(1<<30)))
	other["hash"] = hx(h[:])
	other["weight"] = "0xffffffffffffffffffffffff"
	with := func(k string, v interface{}) obj {
		other[k] = v
		return obj{"type": "batch", "batch": other}
	}
	without := func(k string) obj {
		delete(other, k)
		return obj{"type": "batch", "batch": other}
	}
	junk := []interface{}{"zz", 7, nil, obj{}, []int{1}, "0x", "0xzz", -1, true}
	j := junk[R.Intn(len(junk))]
	switch R.Intn(14) {
	case 0:
		return obj{"type": []string{"batch", "subbatch", "reorg"}[R.Intn(3)]}
	case 1:
		return obj{"type": []string{"batch", "subbatch", "reorg"}[R.Intn(3)], "batch": nil, "subbatch": nil}
	case 2:
		return without("weight")
	case 3:
		return with("weight", []interface{}{nil, "zz", 7, obj{}, "0xzz", "0x" + strings.Repeat("f", 65)}[R.Intn(6)])
	case 4:
		return with("number", []interface{}{"zz", 7, obj{}, "0xzz", "0x" + strings.Repeat("f", 17), -1}[R.Intn(6)])
	case 5:
		return with([]string{"hash", "parent"}[R.Intn(2)], []interface{}{"zz", 7, obj{}, "0xzz", "0x12"}[R.Intn(5)])
	case 6:
		return with("values", []interface{}{7, "x", []int{1}, obj{"k": 7}, obj{"k": "zz"}, obj{"k": "0x1"}}[R.Intn(6)])
	case 7:
		return with("deletes", []interface{}{7, "x", obj{"k": 7}, []int{1}}[R.Intn(4)])
	case 8:
		return with("batches", []interface{}{7, "x", []int{1}, obj{"k": 7}, obj{"k": "0x12"}}[R.Intn(5)])
	case 9:
		return obj{"type": "subbatch", "subbatch": j}
	case 10:
		return obj{"type": "subbatch", "subbatch": obj{"hash": j, "batchid": j, "values": j}}
	case 11:
		return obj{"type": []interface{}{"nonsense", 7, nil, ""}[R.Intn(4)], "batch": other}
	case 12:
		return []interface{}{nil, 7, "x", []int{1}, obj{}}[R.Intn(5)]
	}
	return obj{"type": "batch", "batch": j}
}

// c19ws: messages that make no sense, from a server, among good ones.
func c19ws(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := newWorld(c, g, newSchema(c, g), 2+R.Intn(25), []int{0, 30}[R.Intn(2)], []int{0, 3, 8}[R.Intn(3)])
	done := make(chan struct{})
	var fed atomic.Bool
	bad := 0
	st := newStore(w.start.Hash)
	for _, b := range w.blocks {
		st.put(b)
	}
	var mu sync.Mutex
	srv := newServer(func(i int, k *wsConn) {
		mu.Lock()
		defer mu.Unlock()
		throw := func() {
			for R.Intn(2) == 0 {
				bad++
				switch R.Intn(8) {
				case 0:
					k.text([]byte([]string{"{", "null", "[]", "7", `"x"`, `{"method":7}`, `{"method":"cardinal_subscribe"}`, `{"method":"cardinal_subscribe","params":null}`, `{"method":"cardinal_subscribe","params":{"subscription":"zz"}}`, "\xff\xfe"}[R.Intn(9)]))
				default:
					m := malformed(R, w)
					if c.Only != "" {
						b, _ := json.Marshal(m)
						c.Tracef("%.500s", b)
					}
					k.notify(m)
				}
			}
		}
		k.accept()
		for _, b := range st.after(k.hash) {
			throw()
			var ms []obj
			if R.Intn(2) == 0 {
				ms = append(ms, wireBatch(b, true))
			} else {
				ms = append(ms, wireBatch(b, false))
				for _, s := range b.Subs {
					ms = append(ms, wireSub(b, s))
				}
			}
			for _, m := range ms {
				throw()
				if k.notify(m) != nil {
					return
				}
			}
		}
		k.notify(obj{"type": "ready"})
		fed.Store(true)
		select {
		case <-done:
		case <-k.dead:
		}
	})
	cfg := w.cfg(128)
	cs := wsConsumer(c, "ws://"+srv.addr, cfg, R)
	a := newApp(c, w, "app", cfg)
	a.attach(cs, 200)
	t := newTally(cs)
	var rn atomic.Int64
	rch := make(chan map[int64]types.Hash, 100)
	rsub := cs.SubscribeReorg(rch)
	startConsumer(c, cs)
	if !a.await(w.heaviest(), patience) {
		c.Violate("not-converged", "with malformed messages among the good ones the head is %s, expected %s", a.nm(a.tip()), a.nm(w.heaviest().Hash))
	}
	t.whole(c, w)
	t.mu.Lock()
	for h := range t.n {
		if w.by[h] == nil {
			c.Violate("made-up", "a block %x, which nobody sent in good form, was handed over", h[:])
		}
	}
	t.mu.Unlock()
	a.detach()
	rn.Add(int64(len(rch)))
	if rn.Load() > 0 {
		c.Violate("made-up-reorg", "%d reorgs were made up", rn.Load())
	}
	rsub.Unsubscribe()
	close(done)
	closeConsumer(c, cs)
	srv.close()
	mu.Lock()
	defer mu.Unlock()
	c.Count("malformed_ws", bad)
	c.Distinct(len(w.blocks), bad, a.updates)
	c.Sample("%d blocks among %d malformed messages", len(w.blocks), bad)
}
