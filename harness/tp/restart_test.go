//go:build go1.21

package tp

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

func init() {
	registry["C14"] = func(r *core.Run) {
		r.Cases("restart", r.Pick(400, 9000), c14restart)
		r.Cases("now", r.Pick(100, 2000), c14now)
	}
	registry["C27"] = func(r *core.Run) {
		r.Cases("timestamp", r.Pick(500, 10000), c27)
		r.Cases("fresh", r.Pick(300, 6000), c27fresh)
	}
}

func consumer(c *core.C, cl *fakekafka.Cluster, w *world, token string, rollback int64, cfg *delivery.ConsumerConfig) transports.Consumer {
	var cs transports.Consumer
	var err error
	u, topics := consumerURL(cl, c.R), listed(c.R, w.schema)
	switch c.R.Intn(5) {
	case 0:
		cs, err = transports.NewKafkaConsumer(strings.TrimPrefix(u, "cardinal://"), w.schema.Default, topics, []byte(token), rollback, cfg)
	case 1:
		cs, err = transports.ResolveMuxConsumer([]transports.BrokerParams{{URL: u, DefaultTopic: w.schema.Default, Topics: topics, Rollback: rollback}}, []byte(token), cfg)
	default:
		cs, err = transports.ResolveConsumer(u, w.schema.Default, topics, []byte(token), rollback, cfg)
	}
	if err != nil {
		c.Violate("consumer-error", "ResolveConsumer: %v", err)
		c.Abort()
	}
	return cs
}

func parseToken(c *core.C, tok string) map[string]int64 {
	out := map[string]int64{}
	if tok == "" {
		return out
	}
	for _, p := range strings.Split(tok, ";") {
		i := strings.LastIndex(p, "=")
		if i < 0 {
			c.Violate("token", "no offset in %q", tok)
			continue
		}
		o, err := strconv.ParseInt(p[i+1:], 10, 64)
		if err != nil {
			c.Violate("token", "bad offset in %q", tok)
			continue
		}
		out[p[:i]] = o
	}
	return out
}

// c14restart: an application is stopped and started again from the token of
// the last block it applied, several times, while blocks keep coming.
func c14restart(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(2))
	s := newSchema(c, g)
	var h *fakekafka.Hooks
	switch R.Intn(4) {
	case 0:
		h = trickle(R)
	case 1:
		h = faults(c, R, 0, R.Intn(2))
	}
	mkTopics(cl, s, R, h)
	defer retire(cl, s)
	lockstep := R.Intn(2) == 0
	forks := 0
	if !lockstep {
		forks = []int{0, 30}[R.Intn(2)]
	}
	w := newWorld(c, g, s, 0, 0, 0)
	w.schema = s
	f := newFeed(c, cl, s)
	if R.Intn(3) == 0 { // topics whose first messages expired long ago
		for _, t := range s.AllTopics() {
			for p := 0; p < cl.Parts(t); p++ {
				n := R.Intn(200)
				for i := 0; i < n; i++ {
					cl.Append(t, p, []byte{core.TPing, byte(i)}, nil, 0)
				}
				cl.Trim(t, p, cl.Start(t, p)+int64(R.Intn(n+1)))
			}
		}
	}
	size := []int{0, 3, 8}[R.Intn(3)]
	cfg := w.cfg(128)
	var a *app
	token := ""
	base := hwms(cl, s) // where the messages of the current, not yet settled, period begin
	gens := 2 + R.Intn(3)
	stopped := []string{}
	for gen := 0; gen < gens && !c.Bad(); gen++ {
		// what has to be gone back over: everything since the last settled point
		var back int64
		for k, v := range hwms(cl, s) {
			if d := v - base[k]; d > back {
				back = d
			}
		}
		mode, exact := "exact", false
		var rollback int64
		switch {
		case gen == 0:
			mode, rollback = "start", 0
		case lockstep && back == 0 && R.Intn(2) == 0:
			rollback, exact = int64(-R.Intn(3)), true
		case R.Intn(3) == 0:
			mode, rollback = "all", 1<<40
		default:
			mode, rollback = "back", back+int64(R.Intn(3))
		}
		if gen > 0 && lockstep && R.Intn(3) == 0 && mode != "all" {
			// messages below the token may expire in the meantime
			for k, off := range parseToken(c, token) {
				i := strings.LastIndex(k, ":")
				p, _ := strconv.Atoi(k[i+1:])
				x, first := off-back, cl.Start(k[:i], p)
				if back == 0 && off > first {
					x = first + R.Int63n(off-first+1)
				}
				if x > first {
					cl.Trim(k[:i], p, x)
					c.Count("trims", 1)
				}
			}
		}
		if gen > 0 {
			tip := w.start
			if b := w.get(a.tip()); b != nil {
				tip = b
			}
			cfg = &delivery.ConsumerConfig{LastEmittedNum: tip.Number, LastHash: tip.Hash, LastWeight: tip.Weight, ReorgThreshold: 128, TrackedPrefixes: core.All}
			c.Count("restarts", 1)
			c.Count("restarts_"+mode, 1)
		}
		if token == "" && gen > 0 && rollback > 0 {
			rollback = 0
		}
		c.Tracef("generation %d: tip %x token %q rollback %d (%s, exact %v) base %v", gen, cfg.LastHash[:4], token, rollback, mode, exact, base)
		for _, t := range s.AllTopics() {
			for p := 0; p < cl.Parts(t); p++ {
				cl.Topic(t).Lowest(p)
			}
		}
		cs := consumer(c, cl, w, token, rollback, cfg)
		if a == nil {
			a = newApp(c, w, "app", cfg)
		} else {
			a.stop, a.done, a.stopped = make(chan struct{}), make(chan struct{}), false
		}
		more := func(n int) []*core.Block {
			k := len(w.blocks)
			if forks > 0 && gen > 0 && k > 0 {
				// branches only among blocks of this period, which is read again
				w.grow(g, 1, 0, size)
				n--
			}
			k2 := len(w.blocks)
			for i := 0; i < n; i++ {
				if forks > 0 && R.Intn(100) < forks && len(w.blocks) > k2 {
					w.growFrom(g, w.blocks[k2+R.Intn(len(w.blocks)-k2)], size)
				} else {
					w.grow(g, 1, 0, size)
				}
			}
			return w.blocks[k:]
		}
		if !lockstep || gen > 0 && R.Intn(2) == 0 {
			f.blocks(more(1+R.Intn(12)), R, []int{0, 4, 30}[R.Intn(3)])
		}
		a.attach(cs, []int{0, 1, 200}[R.Intn(3)])
		startConsumer(c, cs)
		if lockstep {
			if !a.await(w.heaviest(), patience) {
				c.Violate("lost-after-restart", "generation %d (token %q, rollback %d): the head is %s, expected %s: %s", gen, token, rollback, a.nm(a.tip()), a.nm(w.heaviest().Hash), cs.WhyNotReady(w.heaviest().Hash))
				return
			}
			for i := R.Intn(6); i >= 0; i-- {
				f.blocks(more(1), R, []int{0, 8}[R.Intn(2)])
				if !a.await(w.heaviest(), patience) {
					c.Violate("lost-after-restart", "generation %d (token %q, rollback %d): the head is %s, expected %s: %s", gen, token, rollback, a.nm(a.tip()), a.nm(w.heaviest().Hash), cs.WhyNotReady(w.heaviest().Hash))
					return
				}
			}
			base = hwms(cl, s)
		} else {
			f.blocks(more(1+R.Intn(12)), R, []int{0, 4, 30}[R.Intn(3)])
			if gen == gens-1 || R.Intn(3) == 0 {
				if !a.await(w.heaviest(), patience) {
					c.Violate("lost-after-restart", "generation %d (token %q, rollback %d): the head is %s, expected %s: %s", gen, token, rollback, a.nm(a.tip()), a.nm(w.heaviest().Hash), cs.WhyNotReady(w.heaviest().Hash))
					return
				}
				if forks == 0 {
					base = hwms(cl, s)
				}
			} else {
				// stopped in the middle of it
				n := a.count()
				k := R.Intn(5)
				wait(300*time.Millisecond, func() bool { return a.count() >= n+k })
				c.Count("stopped_midway", 1)
			}
		}
		a.detach()
		closeConsumer(c, cs)
		for k, off := range parseToken(c, token) {
			i := strings.LastIndex(k, ":")
			p, _ := strconv.Atoi(k[i+1:])
			x := off
			if rollback > 0 {
				x -= rollback
			}
			if x < 0 {
				x = 0
			}
			if low, ok := cl.Topic(k[:i]).Lowest(p); ok && low < x {
				c.Violate("read-again", "generation %d (token %q, rollback %d) reads %s from %d", gen, token, rollback, k, low)
			}
			c.Count("partitions_resumed", 1)
		}
		if t := a.tip(); t != a.base {
			token = a.tokens[t]
		}
		stopped = append(stopped, fmt.Sprint(mode, a.nm(a.tip()), rollback))
	}
	c.Distinct(strings.Join(stopped, ","), len(w.blocks))
	c.Sample("%d blocks, stops and restarts: %s", len(w.blocks), strings.Join(stopped, ", "))
}

func (a *app) count() int {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.updates
}

// growFrom adds one block on a given parent.
func (w *world) growFrom(g *core.Gen, parent *core.Block, size int) *core.Block {
	b := &core.Block{Number: parent.Number + 1, Hash: g.NewHash('B'), Parent: parent.Hash}
	b.Weight = newWeight(w, g, parent)
	w.fill(g, b, size)
	w.add(b)
	return b
}

// c14now: without a last block and a token, a consumer starts with the blocks
// that come from now on. Every block has two messages on a topic of one
// partition, so that the last message of each partition, from which such a
// consumer starts, never makes an old block whole.
func c14now(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(2))
	s := newSchema(c, g)
	s.Topics["pair/"] = s.Default + "-pair"
	mkTopics(cl, s, R, nil)
	cl.CreateTopic(s.Default+"-pair", 1, nil)
	defer retire(cl, s)
	w := newWorld(c, g, s, 0, 0, 0)
	grow := func(n int) []*core.Block {
		k := len(w.blocks)
		for i := 0; i < n; i++ {
			w.grow(g, 1, 0, 4)
			b := w.blocks[len(w.blocks)-1]
			b.Updates["pair/a"], b.Updates["pair/b"] = []byte{1}, []byte{2}
		}
		return w.blocks[k:]
	}
	f := newFeed(c, cl, s)
	old := map[types.Hash]bool{}
	for _, b := range grow(R.Intn(40)) {
		f.block(b)
		old[b.Hash] = true
	}
	for _, t := range s.AllTopics() {
		if R.Intn(4) == 0 {
			p := R.Intn(cl.Parts(t))
			cl.Trim(t, p, cl.HWM(t, p)) // everything on it expired
		}
	}
	cfg := &delivery.ConsumerConfig{LastEmittedNum: 0, LastHash: types.Hash{}, ReorgThreshold: 128, TrackedPrefixes: core.All}
	cs := consumer(c, cl, w, "", int64(R.Intn(3)), cfg)
	a := newApp(c, w, "app", cfg)
	a.attach(cs, 0)
	startConsumer(c, cs)
	for _, b := range grow(2 + R.Intn(8)) {
		f.blocks([]*core.Block{b}, R, 20)
		if !a.await(b, patience) {
			c.Violate("not-started", "starting from now: the head is %s, expected %s: %s", a.nm(a.tip()), a.nm(b.Hash), cs.WhyNotReady(b.Hash))
			return
		}
	}
	a.detach()
	closeConsumer(c, cs)
	for h := range a.applied {
		if old[h] {
			c.Violate("history", "starting from now, %s, which was on the feed before, was applied", a.nm(h))
			break
		}
	}
	if len(a.chain) != len(w.blocks)-len(old) {
		c.Violate("fresh", "%d applied of the %d blocks produced from now on", len(a.chain), len(w.blocks)-len(old))
	}
	c.Count("fresh_blocks", len(a.chain))
	c.Distinct(len(old), len(w.blocks), len(s.AllTopics()))
	c.Sample("%d old blocks, %d new blocks applied", len(old), len(a.chain))
}

// c27: a token for a time makes a consumer see every message from then on, and
// skips what came before as far as partitions are in order.
func c27(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(3))
	private := R.Intn(3) == 0
	if private { // nobody else is connected to it
		cl = fakekafka.New(1 + R.Intn(3))
		defer cl.Close()
	}
	cl2 := cl
	connected := func(when string) {
		if !private {
			return
		}
		if !wait(patience, func() bool { return cl.Conns() == 0 }) {
			c.Violate("connections", "%s, %d connections remain", when, cl.Conns())
		}
		c.Count("connection_counts", 1)
	}
	s := newSchema(c, g)
	mkTopics(cl, s, R, nil)
	defer retire(cl, s)
	topics := s.AllTopics()
	second := []string{}
	if R.Intn(3) == 0 { // a second broker with topics of its own
		cl2 = cluster(1 + R.Intn(3))
		for i := 0; i <= R.Intn(2); i++ {
			t := fmt.Sprintf("%s-second%d", s.Default, i)
			cl2.CreateTopic(t, 1+R.Intn(3), nil)
			aged(cl2, t, R)
			defer cl2.Retire(t)
			second = append(second, t)
		}
	}
	t0 := time.Now().Add(-time.Hour).UnixMilli()
	type msg struct{ time, off int64 }
	all := map[string][]msg{}
	start := map[string]int64{}
	end := map[string]int64{}
	fill := func(cl *fakekafka.Cluster, t string) {
		for p := 0; p < cl.Parts(t); p++ {
			ts := t0 + int64(R.Intn(1000))
			n := R.Intn(25)
			for i := 0; i < n; i++ {
				off := cl.Append(t, p, []byte{core.TPing, byte(i)}, []byte{1}, ts)
				all[source(t, p)] = append(all[source(t, p)], msg{ts, off})
				ts += int64(R.Intn(200))
			}
			if n > 0 && R.Intn(5) == 0 {
				start[source(t, p)] = cl.Start(t, p) + int64(R.Intn(n))
				cl.Trim(t, p, start[source(t, p)])
			}
			if all[source(t, p)] == nil {
				all[source(t, p)] = []msg{}
			}
			end[source(t, p)] = cl.HWM(t, p)
		}
	}
	for _, t := range topics {
		fill(cl, t)
	}
	for _, t := range second {
		fill(cl2, t)
	}
	at := t0 + int64(R.Intn(5000))
	var some []int64
	for _, ms := range all {
		for _, m := range ms {
			some = append(some, m.time)
		}
	}
	if len(some) > 0 && R.Intn(2) == 0 { // exactly at a message, or just before or after
		sort.Slice(some, func(i, j int) bool { return some[i] < some[j] })
		at = some[R.Intn(len(some))] + int64(R.Intn(3)-1)
	}
	bps := []transports.BrokerParams{{URL: consumerURL(cl, R), DefaultTopic: s.Default, Topics: topics}}
	if len(second) > 0 {
		bps = append(bps, transports.BrokerParams{URL: consumerURL(cl2, R), DefaultTopic: second[0], Topics: second})
	}
	nulls := R.Intn(4) == 0
	if nulls {
		bps = append(bps, transports.BrokerParams{URL: "null://"})
	}
	var tok []byte
	var err error
	if !within(patience, func() { tok, err = transports.ResumptionForTimestamp(bps, at) }) {
		c.Violate("stuck", "ResumptionForTimestamp did not return within %v", patience)
		return
	}
	if err != nil {
		c.Violate("error", "ResumptionForTimestamp: %v", err)
		return
	}
	connected("ResumptionForTimestamp has returned")
	got := parseToken(c, string(tok))
	later := 0
	for src, ms := range all {
		want := end[src]
		for _, m := range ms {
			if m.time >= at && m.off >= start[src] {
				want = m.off
				break
			}
		}
		later += int(end[src] - want)
		o, ok := got[src]
		if !ok {
			c.Violate("partition-missing", "the token %q for %d says nothing about %s", tok, at-t0, src)
			continue
		}
		if o != want {
			c.Violate("wrong-offset", "the token for %d puts %s at %d, expected %d (messages %v from offset %d)", at-t0, src, o, want, ms, start[src])
		}
	}
	if len(got) != len(all) {
		c.Violate("extra", "the token %q has %d entries for %d partitions", tok, len(got), len(all))
	}
	c.Count("partitions", len(all))
	c.Count("messages_later", later)
	// a token that can't be complete is an error
	if R.Intn(4) == 0 && !c.Bad() {
		x, t := cl, topics[R.Intn(len(topics))]
		if len(second) > 0 && R.Intn(2) == 0 {
			x, t = cl2, second[R.Intn(len(second))]
		}
		bad := int32(R.Intn(x.Parts(t)))
		act := []fakekafka.Action{{Err: 29}, {Err: 76}, {DropBefore: true}}[R.Intn(3)]
		x.SetHooks(t, &fakekafka.Hooks{Offsets: func(_ string, p int32) (a fakekafka.Action) {
			if p == bad {
				a = act
			}
			return
		}})
		if !within(patience, func() { tok, err = transports.ResumptionForTimestamp(bps, at) }) {
			c.Violate("stuck", "ResumptionForTimestamp did not return within %v, with a partition that tells no offsets", patience)
			return
		}
		if err == nil {
			c.Violate("no-error", "partition %s:%d tells no offsets (%+v), the token is %q", t, bad, act, tok)
		}
		x.SetHooks(t, nil)
		tok = nil
		connected("ResumptionForTimestamp has failed")
		c.Count("tokens_refused", 1)
		return
	}
	// a consumer started from it hears from every message it has not passed
	if R.Intn(3) == 0 && !c.Bad() {
		w := newWorld(c, g, s, 3, 0, 4)
		newFeed(c, cl, s).blocks(w.blocks, R, 0)
		cfg := w.cfg(128)
		cs := consumer(c, cl, w, string(tok), int64(R.Intn(3)), cfg)
		a := newApp(c, w, "app", cfg)
		a.attach(cs, 0)
		startConsumer(c, cs)
		if !a.await(w.heaviest(), patience) {
			c.Violate("not-resumed", "from the token for %d: the head is %s, expected %s", at-t0, a.nm(a.tip()), a.nm(w.heaviest().Hash))
			return
		}
		a.detach()
		closeConsumer(c, cs)
		c.Count("resumed_consumers", 1)
	}
	c.Distinct(string(tok)[strings.IndexByte(string(tok)+":", ':'):], at-t0)
	c.Sample("%d partitions, token at %dms: %s", len(all), at-t0, tok)
}

// c27fresh: a consumer without a last block starts from the token for a time,
// with any rollback: it hands over every block from that time on and, without
// a rollback, none from before.
func c27fresh(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(3))
	s := newSchema(c, g)
	mkTopics(cl, s, R, nil)
	defer retire(cl, s)
	w := newWorld(c, g, s, 1+R.Intn(30), []int{0, 20}[R.Intn(2)], []int{0, 4}[R.Intn(2)])
	f := newFeed(c, cl, s)
	t0 := time.Now().Add(-time.Hour).UnixMilli()
	f.ts = t0
	times := make([]int64, len(w.blocks))
	for i, b := range w.blocks {
		f.ts += int64(R.Intn(3) * R.Intn(100))
		times[i] = f.ts
		f.block(b)
		for k := R.Intn(4) * R.Intn(3); k > 0; k-- {
			t := s.AllTopics()[R.Intn(len(s.AllTopics()))]
			cl.Append(t, R.Intn(cl.Parts(t)), ping(byte(k)), []byte{1}, f.ts)
		}
	}
	at := times[R.Intn(len(times))] + int64(R.Intn(3)-1)
	tok, err := transports.ResumptionForTimestamp([]transports.BrokerParams{{URL: consumerURL(cl, R), DefaultTopic: s.Default, Topics: listed(R, s)}}, at)
	if err != nil {
		c.Violate("error", "ResumptionForTimestamp: %v", err)
		return
	}
	rollback := int64([]int{-1, 0, 0, 1, R.Intn(100), 100000}[R.Intn(6)])
	cfg := &delivery.ConsumerConfig{ReorgThreshold: 128, TrackedPrefixes: core.All}
	cs := consumer(c, cl, w, string(tok), rollback, cfg)
	t := newTally(cs)
	startConsumer(c, cs)
	want := &world{by: w.by, name: w.name}
	before := 0
	for i, b := range w.blocks {
		if times[i] >= at {
			want.blocks = append(want.blocks, b)
		}
	}
	f.ts = 0
	k := len(w.blocks)
	w.grow(g, R.Intn(4), 0, 0)
	for _, b := range w.blocks[k:] {
		f.block(b)
	}
	want.blocks = append(want.blocks, w.blocks[k:]...)
	t.whole(c, want)
	for i, b := range w.blocks[:k] {
		if times[i] < at && t.get(b.Hash) > 0 {
			before++
		}
	}
	if rollback <= 0 && before > 0 {
		c.Violate("before", "from the token for %d, %d earlier blocks were handed over", at-t0, before)
	}
	closeConsumer(c, cs)
	c.Count("fresh_consumers", 1)
	c.Count("blocks_before", before)
	c.Count("blocks_from_then", len(want.blocks))
	c.Distinct(len(w.blocks), at-t0, rollback, before)
	c.Sample("%d blocks, token at %dms, rollback %d: %d handed over, %d of them earlier", len(w.blocks), at-t0, rollback, len(want.blocks)+before, before)
}

func shuffleRecs(R *rand.Rand, rs []rec) {
	R.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
}
