//go:build go1.21

package tp

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

func init() {
	registry["C17"] = func(r *core.Run) {
		r.Cases("sources", r.Pick(340, 8000), c17sources)
		r.Cases("restart", r.Pick(170, 4000), c17restart)
		r.Cases("ready", r.Pick(170, 4000), c17ready)
		r.Cases("fanout", r.Pick(170, 4000), c17fanout)
		r.Cases("health", r.Pick(8, 96), c17health)
	}
}

// source is one of the sources of a consumer, or destinations of a producer.
type src struct {
	name string
	cl   *fakekafka.Cluster
	s    core.Schema
	f    *feed
	down atomic.Bool
	slow func(string, int32) fakekafka.Action

	n  *wsNode
	st *store
	px *proxy
}

func (x *src) kafka() bool { return x.cl != nil }

// kafkaSource sets up topics of its own on a cluster.
func kafkaSource(c *core.C, cl *fakekafka.Cluster, s core.Schema, i int, h *fakekafka.Hooks) *src {
	x := &src{name: fmt.Sprintf("kafka%d", i), cl: cl, s: core.Schema{Default: s.Default + fmt.Sprint("-", i), Topics: map[string]string{}}}
	for k, t := range s.Topics {
		x.s.Topics[k] = t + fmt.Sprint("-", i)
	}
	serve := (func(string, int32) fakekafka.Action)(nil)
	if h != nil {
		serve = h.Fetch
	}
	hk := &fakekafka.Hooks{Fetch: func(t string, p int32) fakekafka.Action {
		var a fakekafka.Action
		if serve != nil {
			a = serve(t, p)
		}
		a.Hold = x.down.Load()
		return a
	}}
	mkTopics(cl, x.s, c.R, hk)
	x.f = newFeed(c, cl, x.s)
	return x
}

func wsSource(c *core.C, w *world) *src {
	x := &src{name: "ws", st: newStore(w.start.Hash)}
	x.n = node(c, x.st)
	x.px = newProxy(c, x.n, func(int) plan { return plan{refuse: x.down.Load()} })
	return x
}

func (x *src) params(R *rand.Rand, rollback int64) transports.BrokerParams {
	if x.kafka() {
		return transports.BrokerParams{URL: consumerURL(x.cl, R), DefaultTopic: x.s.Default, Topics: listed(R, x.s), Rollback: rollback}
	}
	return transports.BrokerParams{URL: x.px.url(R), DefaultTopic: "unused"}
}

func (x *src) send(c *core.C, bs []*core.Block, R *rand.Rand, window int) {
	if !x.kafka() {
		produceWS(c, x.n.p, x.st, bs, R, R.Intn(3), false)
		return
	}
	if window == 0 {
		for _, b := range bs {
			x.f.block(b)
			if R.Intn(6) == 0 {
				time.Sleep(time.Duration(R.Intn(5)) * time.Millisecond)
			}
		}
		return
	}
	x.f.blocks(bs, R, window)
}

func (x *src) end() {
	if x.kafka() {
		retire(x.cl, x.s)
		return
	}
	x.px.close()
	x.n.give()
}

// gone checks that nobody is connected to a source any more.
func (x *src) gone(c *core.C) {
	var left int64
	if !wait(patience, func() bool {
		if x.kafka() {
			left = x.cl.Conns()
		} else {
			left = int64(x.px.open())
		}
		return left == 0
	}) {
		c.Violate("connections", "%v after Close %d connections to %s are left", patience, left, x.name)
	}
}

func muxConsumer(c *core.C, xs []*src, rollback int64, nulls int, token string, cfg *delivery.ConsumerConfig) transports.Consumer {
	var bps []transports.BrokerParams
	for _, x := range xs {
		bps = append(bps, x.params(c.R, rollback))
	}
	for ; nulls > 0; nulls-- {
		i := c.R.Intn(len(bps) + 1)
		bps = append(bps, transports.BrokerParams{})
		copy(bps[i+1:], bps[i:])
		bps[i] = transports.BrokerParams{URL: []string{"null://", "cardinal://null://"}[c.R.Intn(2)], Topics: []string{"x"}}
	}
	cs, err := transports.ResolveMuxConsumer(bps, []byte(token), cfg)
	if err != nil {
		c.Violate("consumer-error", "ResolveMuxConsumer: %v", err)
		c.Abort()
	}
	return cs
}

// drawSources gives two to four sources in random order, at least one of them
// Kafka.
func drawSources(c *core.C, w *world, ws bool, mk func() *fakekafka.Hooks) []*src {
	R := c.R
	nk := 1 + R.Intn(3)
	if !ws && nk == 1 {
		nk = 2
	}
	var xs []*src
	ids := R.Perm(3)
	for i := 0; i < nk; i++ {
		id := ids[i]
		if R.Intn(4) == 0 {
			id = ids[0] // two sources on the same cluster
		}
		var h *fakekafka.Hooks
		if mk != nil {
			h = mk()
		}
		xs = append(xs, kafkaSource(c, clusterOf("sources", 1+id), w.schema, i, h))
	}
	if ws {
		xs = append(xs, wsSource(c, w))
	}
	R.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
	return xs
}

func describe(xs []*src) string {
	var out []string
	for _, x := range xs {
		out = append(out, x.name)
	}
	return strings.Join(out, "+")
}

// c17sources: blocks come from one, several or all of a consumer's sources,
// one of which may stop serving; every block is applied once, as one chain.
func c17sources(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := newWorld(c, g, newSchema(c, g), 3+R.Intn(40), []int{0, 20, 50}[R.Intn(3)], []int{0, 3, 8}[R.Intn(3)])
	xs := drawSources(c, w, R.Intn(2) == 0, func() *fakekafka.Hooks {
		switch R.Intn(4) {
		case 0:
			return trickle(R)
		case 1:
			return faults(c, R, 0, R.Intn(3))
		}
		return nil
	})
	for _, x := range xs {
		defer x.end()
	}
	// which blocks each source carries
	lists := make([][]*core.Block, len(xs))
	failing := -1
	how := []string{"all", "some", "one", "turns", "failing"}[R.Intn(5)]
	turn := R.Intn(len(xs))
	if how == "failing" {
		failing = turn
	}
	for _, b := range w.blocks {
		one := R.Intn(len(xs))
		if failing >= 0 && one == failing {
			one = (one + 1) % len(xs)
		}
		if R.Intn(5) == 0 {
			turn = R.Intn(len(xs))
		}
		for i := range xs {
			in := false
			switch how {
			case "all":
				in = true
			case "some", "failing":
				in = i == one || R.Intn(2) == 0
			case "one":
				in = i == one
			case "turns":
				in = i == turn
			}
			if in {
				lists[i] = append(lists[i], b)
			}
		}
	}
	cfg := w.cfg(128)
	cuts := make([]int, len(xs))
	late := R.Intn(3) > 0
	for i, x := range xs {
		cuts[i] = len(lists[i])
		if late {
			cuts[i] = R.Intn(len(lists[i]) + 1)
		}
		x.send(c, lists[i][:cuts[i]], R, []int{0, 8}[R.Intn(2)])
	}
	if failing >= 0 && R.Intn(2) == 0 {
		xs[failing].down.Store(true)
	}
	pings := 0
	for _, x := range xs {
		if x.kafka() {
			for k := R.Intn(3); k > 0; k-- {
				x.cl.Append(x.s.Default, R.Intn(x.cl.Parts(x.s.Default)), ping(byte(1+pings)), []byte{1}, 0)
				pings++
			}
		}
	}
	down := failing >= 0 && xs[failing].down.Load()
	if down && !xs[failing].kafka() {
		// a consumer waits for its websocket source to be there
		xs[failing].down.Store(false)
	}
	cs := muxConsumer(c, xs, int64(R.Intn(2)-1), R.Intn(2), "", cfg)
	a := newApp(c, w, "app", cfg)
	a.attach(cs, []int{0, 1, 200}[R.Intn(3)])
	t := newTally(cs)
	goal := w.heaviest()
	found := make(chan waiter.WaitResult, 1)
	wt := cs.Waiter()
	go func() { // it can be waited for once it is announced
		for end := time.Now().Add(3 * patience); time.Now().Before(end); time.Sleep(time.Millisecond) {
			if r := wt.WaitForHashResult(goal.Hash, 2*patience); r != waiter.NotFound {
				found <- r
				return
			}
		}
		found <- waiter.NotFound
	}()
	startConsumer(c, cs)
	if failing >= 0 {
		xs[failing].down.Store(true)
		if !xs[failing].kafka() {
			xs[failing].px.drop()
		}
	}
	var wg sync.WaitGroup
	for i, x := range xs {
		if len(lists[i]) == cuts[i] {
			continue
		}
		wg.Add(1)
		go func(x *src, bs []*core.Block, R *rand.Rand) {
			defer wg.Done()
			time.Sleep(time.Duration(R.Intn(20)) * time.Millisecond)
			x.send(c, bs, R, []int{0, 8}[R.Intn(2)])
		}(x, lists[i][cuts[i]:], rand.New(rand.NewSource(R.Int63())))
	}
	wg.Wait()
	if !a.await(goal, patience) {
		c.Violate("not-converged", "%s (%s, failing %d): after %v the head is %s, expected %s of %d blocks: %s", describe(xs), how, failing, patience, a.nm(a.tip()), a.nm(goal.Hash), len(w.blocks), cs.WhyNotReady(goal.Hash))
	} else {
		t.whole(c, w)
		select {
		case r := <-found:
			if r != waiter.Success {
				c.Violate("waiter", "waiting for the head, which was applied, gave %v", r)
			}
		case <-time.After(patience):
			c.Violate("waiter", "waiting for the head did not end within %v of its application", patience)
		}
		if failing < 0 {
			var got uint
			if !wait(patience, func() bool { got = cs.ProducerCount(time.Hour); return got == uint(pings) }) {
				c.Violate("producer-count", "%s: %d producers are counted, the sources heard from %d", describe(xs), got, pings)
			}
			c.Count("producers_counted", pings)
		}
	}
	a.detach()
	wt.Stop()
	closeConsumer(c, cs)
	for _, x := range xs {
		x.gone(c)
	}
	if failing >= 0 {
		c.Count("sources_failed", 1)
	}
	c.Count("sources", len(xs))
	c.Distinct(describe(xs), how, failing, fmt.Sprint(cuts), len(w.blocks), a.updates, a.reorgs)
	c.Sample("%s, blocks from %s: %d blocks, %d updates, %d reorgs", describe(xs), how, len(w.blocks), a.updates, a.reorgs)
}

// c17restart: consumers of several sources are stopped and started again from
// the token of the block last applied.
func c17restart(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := newWorld(c, g, newSchema(c, g), 0, 0, 0)
	xs := drawSources(c, w, R.Intn(3) == 0, func() *fakekafka.Hooks {
		if R.Intn(4) == 0 {
			return trickle(R)
		}
		return nil
	})
	for _, x := range xs {
		defer x.end()
	}
	levels := func() map[string]int64 {
		out := map[string]int64{}
		for i, x := range xs {
			if x.kafka() {
				for k, v := range hwms(x.cl, x.s) {
					out[fmt.Sprint(i, "/", k)] = v
				}
			}
		}
		return out
	}
	base := levels()
	size := []int{0, 3}[R.Intn(2)]
	more := func(n int) {
		for ; n > 0; n-- {
			w.grow(g, 1, 0, size)
			b := w.blocks[len(w.blocks)-1:]
			one := R.Intn(len(xs))
			for i, x := range xs {
				if i == one || R.Intn(3) == 0 {
					x.send(c, b, R, 0)
				}
			}
		}
	}
	token := ""
	var a *app
	gens := 2 + R.Intn(3)
	var steps []string
	for gen := 0; gen < gens && !c.Bad(); gen++ {
		var back int64
		for k, v := range levels() {
			if d := v - base[k]; d > back {
				back = d
			}
		}
		rollback := back + int64(R.Intn(2))
		if back == 0 {
			rollback = int64(R.Intn(3) - 2)
		}
		cfg := w.cfg(128)
		if gen > 0 {
			if b := w.get(a.tip()); b != nil {
				cfg.LastEmittedNum, cfg.LastHash, cfg.LastWeight = b.Number, b.Hash, b.Weight
			}
			c.Count("restarts", 1)
		}
		if token == "" && rollback > 0 {
			rollback = 0
		}
		c.Tracef("generation %d: tip %x token %q rollback %d", gen, cfg.LastHash[:4], token, rollback)
		cs := muxConsumer(c, xs, rollback, R.Intn(2), token, cfg)
		if a == nil {
			a = newApp(c, w, "app", cfg)
		} else {
			a.stop, a.done, a.stopped = make(chan struct{}), make(chan struct{}), false
		}
		if R.Intn(2) == 0 {
			more(1 + R.Intn(6))
		}
		a.attach(cs, []int{0, 200}[R.Intn(2)])
		startConsumer(c, cs)
		settle := func() bool {
			if !a.await(w.heaviest(), patience) {
				c.Violate("lost-after-restart", "%s, generation %d (token %q, rollback %d): the head is %s, expected %s: %s", describe(xs), gen, token, rollback, a.nm(a.tip()), a.nm(w.heaviest().Hash), cs.WhyNotReady(w.heaviest().Hash))
				return false
			}
			return true
		}
		midway := R.Intn(3) == 0 && gen < gens-1
		if !midway {
			if !settle() {
				return
			}
		}
		for i := R.Intn(5); i >= 0; i-- {
			more(1)
			if !midway && !settle() {
				return
			}
		}
		if !midway {
			base = levels()
		}
		a.detach()
		closeConsumer(c, cs)
		if t := a.tip(); t != a.base {
			token = a.tokens[t]
		}
		steps = append(steps, fmt.Sprint(midway, a.nm(a.tip()), rollback))
	}
	for _, x := range xs {
		x.gone(c)
	}
	c.Distinct(describe(xs), strings.Join(steps, ","), len(w.blocks))
	c.Sample("%s: %d blocks, stops: %s", describe(xs), len(w.blocks), strings.Join(steps, ", "))
}

// c17ready: a consumer of several sources is ready as soon as one of them is,
// and starts if one of them does.
func c17ready(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := newWorld(c, g, newSchema(c, g), 1+R.Intn(20), 0, []int{0, 3}[R.Intn(2)])
	xs := drawSources(c, w, false, nil)
	for _, x := range xs {
		defer x.end()
		x.send(c, w.blocks, R, 0)
	}
	refused := map[int]bool{}
	token := ""
	if R.Intn(2) == 0 { // positions past the end are refused
		for i, x := range xs {
			if R.Intn(2) == 0 {
				refused[i] = true
				token += fmt.Sprintf(";%s:0=%d", x.s.Default, x.cl.HWM(x.s.Default, 0)+5)
			}
		}
	}
	if len(refused) == 0 {
		for _, x := range xs {
			x.down.Store(true)
		}
	}
	cfg := w.cfg(128)
	cs := muxConsumer(c, xs, 0, 0, token, cfg)
	a := newApp(c, w, "app", cfg)
	a.attach(cs, 200)
	t := newTally(cs)
	var isReady <-chan struct{}
	if R.Intn(2) == 0 {
		isReady = cs.Ready()
	}
	var err error
	if !within(patience, func() { err = cs.Start() }) {
		c.Violate("start-stuck", "Start did not return within %v", patience)
		c.Abort()
	}
	what := fmt.Sprintf("%s with %d refused", describe(xs), len(refused))
	if len(refused) == len(xs) {
		if err == nil {
			c.Violate("start-no-error", "%s: Start gave no error", what)
		}
		c.Count("all_refused", 1)
	} else {
		if err != nil {
			c.Violate("start-error", "%s: Start: %v", what, err)
		}
		if isReady == nil {
			isReady = cs.Ready()
		}
		if len(refused) == 0 {
			time.Sleep(time.Duration(R.Intn(2500)) * time.Millisecond)
			if hasClosed(isReady) {
				c.Violate("early", "%s: ready while no source has served anything", what)
			}
			xs[R.Intn(len(xs))].down.Store(false)
			what = describe(xs) + " of which one serves"
		}
		select {
		case <-isReady:
			a.mu.Lock()
			n := 0
			for _, b := range w.blocks {
				n += t.get(b.Hash)
			}
			a.mu.Unlock()
			if n < len(w.blocks) {
				c.Violate("early-processing", "%s: ready while %d of %d blocks were handed over", what, n, len(w.blocks))
			}
			c.Count("ready", 1)
		case <-time.After(2 * patience):
			c.Violate("never-ready", "%s: not ready after %v", what, 2*patience)
		}
		if !a.await(w.heaviest(), patience) {
			c.Violate("not-converged", "%s: the head is %s, expected %s", what, a.nm(a.tip()), a.nm(w.heaviest().Hash))
		}
		t.whole(c, w)
	}
	a.detach()
	closeConsumer(c, cs)
	for _, x := range xs {
		x.gone(c)
	}
	c.Distinct(what, len(w.blocks), a.updates)
	c.Sample("%s, %d blocks", what, len(w.blocks))
}

func plainURL(cl *fakekafka.Cluster, R *rand.Rand) string {
	return []string{"", "cardinal://"}[R.Intn(2)] + cl.URLWith("none", "retry.backoff.ms=20")
}

// c17fanout: a producer of several destinations sends everything to each,
// whatever becomes of the others.
func c17fanout(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := newWorld(c, g, newSchema(c, g), 3+R.Intn(25), []int{0, 30}[R.Intn(2)], []int{0, 3, 8}[R.Intn(3)])
	var xs []*src
	nk := 1 + R.Intn(2)
	denied := -1
	if R.Intn(3) == 0 {
		denied = R.Intn(nk)
	}
	low := int64(-1)
	pings := 0
	ids := R.Perm(2)
	var bps []transports.ProducerBrokerParams
	for i := 0; i < nk; i++ {
		x := kafkaSource(c, cluster(4+ids[i]), w.schema, i, nil)
		xs = append(xs, x)
		if i == denied {
			for _, t := range x.s.AllTopics() {
				x.cl.SetHooks(t, &fakekafka.Hooks{Produce: func(string, int32) fakekafka.Action { return fakekafka.Action{Err: 29} }})
			}
		}
		// what was there before
		top := int64(0)
		for k := R.Intn(4); k > 0; k-- {
			b := &core.Block{Number: int64(1 + R.Intn(1000)), Hash: g.NewHash('O'), Parent: g.NewHash('P'), Weight: g.Weight(), Updates: map[string][]byte{}, Deletes: map[string]struct{}{}}
			if b.Number > top {
				top = b.Number
			}
			x.f.block(b)
		}
		if low < 0 || top < low {
			low = top
		}
		for k := R.Intn(3); k > 0; k-- {
			x.cl.Append(x.s.Default, 0, ping(byte(1+pings)), []byte{1}, 0)
			pings++
		}
		bps = append(bps, transports.ProducerBrokerParams{URL: plainURL(x.cl, R), DefaultTopic: x.s.Default, Schema: x.s.Topics})
		defer x.end()
	}
	var n *wsNode
	st := newStore(w.start.Hash)
	if nk == 1 || R.Intn(2) == 0 {
		n = &wsNode{set: make(chan struct{}, 1)}
		n.cur.Store(st)
		port := freePort()
		n.addr = fmt.Sprintf("127.0.0.1:%d", port)
		bps = append(bps, transports.ProducerBrokerParams{URL: fmt.Sprintf("ws://0.0.0.0:%d", port)})
		R.Shuffle(len(bps), func(i, j int) { bps[i], bps[j] = bps[j], bps[i] })
	}
	var p transports.Producer
	var err error
	if !within(patience, func() { p, err = transports.ResolveMuxProducer(bps, n) }) {
		c.Violate("producer-stuck", "ResolveMuxProducer did not return within %v", patience)
		return
	}
	if err != nil {
		c.Violate("producer-error", "ResolveMuxProducer: %v", err)
		return
	}
	what := fmt.Sprintf("%d clusters, websocket %v, denied %d", nk, n != nil, denied)
	// a first answer may be too low because of the one-second limit
	for try := 0; ; try++ {
		v, err := p.LatestBlockFromFeed()
		if err != nil {
			c.Violate("latest", "%s: LatestBlockFromFeed: %v", what, err)
			break
		}
		if v == low {
			break
		}
		if v > low || try == 3 {
			c.Violate("latest", "%s: LatestBlockFromFeed gave %d, the lowest head is %d", what, v, low)
			break
		}
	}
	var count uint
	if !wait(patience/4, func() bool { count = p.ProducerCount(time.Hour); return count == uint(pings) }) {
		c.Violate("producer-count", "%s: %d producers are counted, the destinations heard from %d", what, count, pings)
	}
	// one consumer for each destination
	type one struct {
		name string
		cs   transports.Consumer
		a    *app
		t    *tally
		h    *hear
	}
	var ones []one
	follow := func(name string, cs transports.Consumer, cfg *delivery.ConsumerConfig) {
		o := one{name, cs, newApp(c, w, name, cfg), newTally(cs), newHear(cs, 2)}
		o.a.attach(cs, 200)
		startConsumer(c, cs)
		ones = append(ones, o)
	}
	for i, x := range xs {
		if i != denied {
			cfg := w.cfg(128)
			cs, err := transports.ResolveConsumer(consumerURL(x.cl, R), x.s.Default, listed(R, x.s), nil, -1, cfg)
			if err != nil {
				c.Violate("consumer-error", "ResolveConsumer: %v", err)
				return
			}
			follow(x.name, cs, cfg)
		}
	}
	var px *proxy
	if n != nil {
		n.p = p
		if !wait(patience/4, n.alive) {
			c.Inconclusive("websocket server not listening")
			return
		}
		px = newProxy(c, n, func(int) plan { return plan{} })
		cfg := w.cfg(128)
		cs := wsConsumer(c, px.url(R), cfg, R)
		follow("ws", cs, cfg)
	}
	for k := R.Intn(3); k > 0; k-- { // part of no block
		id := g.NewHash('U')
		if err := p.SendBatch(id, nil, map[string][]byte{"k": {byte(k)}}); err == nil {
			c.Violate("unknown-batch", "%s: a batch of no block is accepted", what)
		}
		c.Count("unknown_batches", 1)
	}
	failed := 0
	add := func(b *core.Block) {
		if err := addBlock(p, b); err != nil {
			failed++
			if denied < 0 {
				c.Violate("add-block", "%s: AddBlock: %v", what, err)
			}
		}
	}
	subs := func(b *core.Block) {
		for _, i := range R.Perm(len(b.Subs)) {
			s := b.Subs[i]
			if err := p.SendBatch(s.ID, s.Deletes, s.Updates); err != nil {
				failed++
				if denied < 0 {
					c.Violate("send-batch", "%s: SendBatch: %v", what, err)
				}
			}
		}
	}
	if !within(patience, func() {
		for _, b := range w.blocks {
			st.put(b)
			add(b)
			c.Count("blocks_produced", 1)
			subs(b)
		}
	}) {
		c.Violate("produce-stuck", "%s: producing %d blocks did not finish within %v", what, len(w.blocks), patience)
		return
	}
	if denied >= 0 {
		// the refusal shows on a later call
		if !within(patience, func() {
			for end := time.Now().Add(patience / 2); failed == 0 && time.Now().Before(end); {
				time.Sleep(5 * time.Millisecond)
				w.grow(g, 1, 0, 0)
				st.put(w.heaviest())
				add(w.heaviest())
			}
		}) {
			c.Violate("produce-stuck", "%s: adding blocks did not finish within %v", what, patience)
			return
		}
		if failed == 0 {
			c.Violate("no-error", "%s: a destination that refuses everything was never reported", what)
		}
		c.Count("destinations_denied", 1)
	}
	goal := w.heaviest()
	for _, o := range ones {
		if !o.a.await(goal, patience) {
			c.Violate("not-converged", "%s: at %s the head is %s, expected %s of %d blocks", what, o.name, o.a.nm(o.a.tip()), o.a.nm(goal.Hash), len(w.blocks))
			return
		}
		o.t.whole(c, w)
	}
	if denied < 0 && R.Intn(2) == 0 {
		// blocks known to be on the feed are sent again only if asked to replay
		b := w.blocks[R.Intn(len(w.blocks))]
		sent := func() (out []int) {
			for _, x := range xs {
				k := 0
				for q := 0; q < x.cl.Parts(x.s.Default); q++ {
					for _, r := range x.cl.Records(x.s.Default, q) {
						if len(r.Key) == 33 && r.Key[0] == core.TBatch && types.BytesToHash(r.Key[1:]) == b.Hash {
							k++
						}
					}
				}
				out = append(out, k)
			}
			return
		}
		ones1 := make([]int, nk)
		for i := range ones1 {
			ones1[i] = 1
		}
		wait(patience/10, func() bool { return fmt.Sprint(sent()) == fmt.Sprint(ones1) })
		if k := fmt.Sprint(sent()); k != fmt.Sprint(ones1) {
			c.Violate("sent-once", "%s: block sent %s times per cluster", what, k)
		}
		// the producer may still be reading its own messages back
		again := func() bool {
			for _, k := range sent() {
				if k < 2 {
					return false
				}
			}
			return true
		}
		for tries := 0; !again(); tries++ {
			if tries == 20 {
				c.Violate("replay", "%s: after PurgeReplayCache, a block sent again is on the clusters %v times", what, sent())
				break
			}
			p.PurgeReplayCache()
			add(b)
			subs(b)
			wait(time.Second, again)
		}
		c.Count("replays", 1)
	}
	if n != nil {
		fn, err := p.Reorg(w.start.Number, w.start.Hash)
		if err != nil || fn == nil {
			c.Violate("reorg", "%s: Reorg: %v", what, err)
		} else {
			fn()
		}
		for _, o := range ones {
			if o.name == "ws" {
				wait(patience/4, func() bool { return len(o.h.get()) > 0 })
				if got := o.h.get(); len(got) != 1 || got[0] != (note{w.start.Number, w.start.Hash}) {
					c.Violate("reorg", "%s: a consumer of the websocket heard %v of one reorg", what, got)
				}
			}
		}
	}
	for _, o := range ones {
		o.a.detach()
		close(o.h.end)
		closeConsumer(c, o.cs)
	}
	if px != nil {
		px.close()
		n.give()
	}
	c.Distinct(what, len(w.blocks), low, pings)
	c.Sample("%s: %d blocks to each, lowest head %d, %d producers heard", what, len(w.blocks), low, pings)
}

// c17health: the health of a producer of several destinations is that of each.
func c17health(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	s := newSchema(c, g)
	a, b := kafkaSource(c, cluster(5), s, 0, nil), kafkaSource(c, cluster(6), s, 1, nil)
	defer a.end()
	defer b.end()
	var bps []transports.ProducerBrokerParams
	for _, x := range []*src{a, b} {
		bps = append(bps, transports.ProducerBrokerParams{URL: plainURL(x.cl, R), DefaultTopic: x.s.Default, Schema: x.s.Topics})
	}
	p, err := transports.ResolveMuxProducer(bps, nil)
	if err != nil {
		c.Violate("producer-error", "ResolveMuxProducer: %v", err)
		return
	}
	healthy := R.Intn(2) == 0
	p.SetHealth(healthy)
	pings := func(x *src) (n int) {
		for q := 0; q < x.cl.Parts(x.s.Default); q++ {
			for _, r := range x.cl.Records(x.s.Default, q) {
				if len(r.Key) > 0 && r.Key[0] == core.TPing {
					n++
				}
			}
		}
		return
	}
	t0 := time.Now()
	if healthy {
		if !wait(patience, func() bool { return pings(a) > 0 && pings(b) > 0 }) {
			c.Violate("no-heartbeat", "%v after a producer was set healthy, its clusters have %d and %d heartbeats", patience, pings(a), pings(b))
		}
	} else {
		for time.Since(t0) < 34*time.Second {
			time.Sleep(100 * time.Millisecond)
		}
		if pings(a)+pings(b) > 0 {
			c.Violate("heartbeat", "an unhealthy producer's clusters have %d and %d heartbeats", pings(a), pings(b))
		}
	}
	c.Distinct(healthy, c.I)
	c.Sample("healthy %v: %d and %d heartbeats in %v", healthy, pings(a), pings(b), time.Since(t0).Round(time.Second))
}
