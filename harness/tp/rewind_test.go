//go:build go1.21

package tp

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

func init() {
	registry["C23"] = func(r *core.Run) {
		r.Cases("kafka", r.Pick(160, 4000), c23kafka)
		r.Cases("ws", r.Pick(400, 8000), c23ws)
	}
}

type note struct {
	num  int64
	hash types.Hash
}

// hear collects the reorg notices of a consumer.
type hear struct {
	mu  sync.Mutex
	ns  []note
	end chan struct{}
}

func newHear(cs transports.Consumer, buf int) *hear {
	h := &hear{end: make(chan struct{})}
	ch := make(chan map[int64]types.Hash, buf)
	sub := cs.SubscribeReorg(ch)
	go func() {
		for {
			select {
			case m := <-ch:
				h.mu.Lock()
				for a, b := range m {
					h.ns = append(h.ns, note{a, b})
				}
				h.mu.Unlock()
			case <-h.end:
				sub.Unsubscribe()
				return
			}
		}
	}()
	return h
}

func (h *hear) get() []note {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]note{}, h.ns...)
}

// history is a stream in which markers take the chain back.
type history struct {
	w    *world
	g    *core.Gen
	a    *app
	full []*core.Block // the chain as the stream has it
	sent []note
	n    map[types.Hash]int
}

func (h *history) extend(n, size int) []*core.Block {
	var out []*core.Block
	for i := 0; i < n; i++ {
		p := h.w.start
		if len(h.full) > 0 {
			p = h.full[len(h.full)-1]
		}
		b := &core.Block{Number: p.Number + 1, Hash: h.g.NewHash('B'), Parent: p.Hash, Weight: newWeight(h.w, h.g, p)}
		h.w.fill(h.g, b, size)
		h.w.add(b)
		h.full = append(h.full, b)
		out = append(out, b)
		h.n[b.Hash]++
	}
	return out
}

// back takes the chain back to one of its blocks, and gives the branch that
// follows: maybe some of the same blocks, and new ones.
func (h *history) back(R *rand.Rand, size int) (note, []*core.Block) {
	at := R.Intn(len(h.full)+1) - 1
	if R.Intn(2) == 0 && len(h.full) > 4 {
		at = len(h.full) - 1 - R.Intn(4)
	}
	to := h.w.start
	if at >= 0 {
		to = h.full[at]
	}
	old := append([]*core.Block{}, h.full[at+1:]...)
	h.full = h.full[:at+1]
	var br []*core.Block
	if R.Intn(3) == 0 {
		br = old[:R.Intn(len(old)+1)]
		h.full = append(h.full, br...)
	}
	nth := 0
	if len(br) > 0 {
		nth = h.n[br[0].Hash]
		for _, b := range br {
			h.n[b.Hash]++
		}
	}
	br = append(append([]*core.Block{}, br...), h.extend(1+R.Intn(8), size)...)
	h.a.mu.Lock()
	h.a.rewinds = append(h.a.rewinds, rewind{to: to.Hash, first: br[0].Hash, nth: nth})
	h.a.mu.Unlock()
	k := note{to.Number, to.Hash}
	h.sent = append(h.sent, k)
	return k, br
}

func (h *history) check(c *core.C, hs []*hear, what string) {
	tip := h.full[len(h.full)-1]
	if !h.a.await(tip, patience) {
		c.Violate("rewind-stuck", "%s: %v after %d markers and their branches the head is %s, expected %s", what, patience, len(h.sent), h.a.nm(h.a.tip()), h.a.nm(tip.Hash))
		return
	}
	for i, x := range hs {
		wait(patience/4, func() bool { return len(x.get()) >= len(h.sent) })
		got := x.get()
		if fmt.Sprint(got) != fmt.Sprint(h.sent) {
			c.Violate("reorg-notice", "%s: subscriber %d heard %d notices of %d markers, or in another order", what, i, len(got), len(h.sent))
		}
	}
	h.a.mu.Lock()
	defer h.a.mu.Unlock()
	for i, b := range h.full {
		if i >= len(h.a.chain) || h.a.chain[i].Hash != b.Hash {
			c.Violate("rewind-chain", "%s: the applied chain differs from the stream's at height %d", what, i)
			break
		}
	}
}

// c23kafka: markers on the default topic, with the branch on a reorg topic of
// its own, written before, after or while the consumer reads it.
func c23kafka(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(3))
	pre := fmt.Sprintf("%s-%d-%d-", c.Suite, c.I, R.Intn(1000000))
	s := core.Schema{Default: pre + "def", Topics: map[string]string{}}
	var hk *fakekafka.Hooks
	if R.Intn(4) == 0 {
		hk = trickle(R)
	}
	cl.CreateTopic(s.Default, 1, hk)
	w := &world{by: map[types.Hash]*core.Block{}, name: map[types.Hash]string{}, schema: s}
	w.start = &core.Block{Number: int64(R.Intn(1000)), Hash: g.NewHash('S'), Weight: g.Weight()}
	w.start.Parent = g.NewHash('G')
	w.name[w.start.Hash] = "S"
	f := newFeed(c, cl, s)
	size := []int{0, 3}[R.Intn(2)]
	cfg := w.cfg(128)
	// topics beside the default one, listed in any order
	side := &world{schema: core.Schema{Default: s.Default, Topics: map[string]string{}}}
	for i := R.Intn(3); i > 0; i-- {
		t := fmt.Sprint(pre, "side", i)
		side.schema.Topics[t] = t
		cl.CreateTopic(t, 1, hk)
		defer cl.Retire(t)
		for k := R.Intn(3); k > 0; k-- {
			cl.Append(t, 0, ping(byte(k)), []byte{1}, 0)
		}
	}
	cs := consumer(c, cl, side, "", -1, cfg)
	a := newApp(c, w, "app", cfg)
	h := &history{w: w, g: g, a: a, n: map[types.Hash]int{}}
	hs := []*hear{newHear(cs, R.Intn(2)*10), newHear(cs, 0)}
	a.attach(cs, []int{0, 200}[R.Intn(2)])
	late := R.Intn(2) == 0 // the consumer starts when all is there
	if !late {
		startConsumer(c, cs)
	}
	f.blocks(h.extend(2+R.Intn(12), size), R, 0)
	rounds := 1 + R.Intn(3)
	var topics []string
	used := map[types.Hash]bool{}
	for k := 0; k < rounds; k++ {
		m, br := h.back(R, size)
		if used[m.hash] {
			// the topic is named for the block: it can't be used twice
			h.sent = h.sent[:len(h.sent)-1]
			h.a.mu.Lock()
			h.a.rewinds = h.a.rewinds[:len(h.a.rewinds)-1]
			h.a.mu.Unlock()
			c.Inconclusive("marker for the same block twice")
			a.stopped = true
			close(a.stop)
			closeConsumer(c, cs)
			return
		}
		used[m.hash] = true
		t := fmt.Sprintf("%s-re-%x", s.Default, m.hash[:])
		topics = append(topics, t)
		cl.CreateTopic(t, 1, hk)
		marker := rec{t, 0, core.Key(core.TReorg, m.hash[:]), core.PutLong(nil, m.num)}
		f.put(marker)
		var rs []rec
		cut := R.Intn(len(br) + 1) // how much of the branch goes to the reorg topic
		if R.Intn(3) == 0 {
			cut = len(br)
		}
		for _, b := range br[:cut] {
			for _, r := range f.recs(b) {
				r.topic, r.part = t, 0
				rs = append(rs, r)
			}
			c.Count("blocks_produced", 1)
		}
		rs = append(rs, rec{t, 0, core.Key(core.TReorgDone, m.hash[:]), core.PutLong(nil, m.num)})
		early := len(rs)
		if !late && R.Intn(2) == 0 {
			early = R.Intn(len(rs) + 1)
		}
		f.put(rs[:early]...)
		marker.topic = s.Default
		f.put(marker)
		for _, r := range rs[early:] {
			if R.Intn(3) == 0 {
				time.Sleep(time.Duration(R.Intn(100)) * time.Millisecond)
			}
			f.put(r)
		}
		c.Count("markers", 1)
		f.blocks(br[cut:], R, 0)
		if R.Intn(2) == 0 && !late {
			h.check(c, hs, "midway")
		}
		f.blocks(h.extend(R.Intn(4), size), R, 0)
	}
	if late {
		startConsumer(c, cs)
	}
	h.check(c, hs, "in the end")
	if !c.Bad() {
		select {
		case <-cs.Ready():
		case <-time.After(patience):
			c.Violate("never-ready", "not ready %v after everything was applied", patience)
		}
	}
	a.detach()
	for _, x := range hs {
		close(x.end)
	}
	closeConsumer(c, cs)
	for _, t := range append(topics, s.Default) {
		cl.Retire(t)
	}
	c.Distinct(len(h.full), rounds, len(w.blocks), late)
	c.Sample("%d blocks, %d markers, final chain of %d", len(w.blocks), len(h.sent), len(h.full))
}

// c23ws: the same through a websocket producer.
func c23ws(c *core.C) {
	R := c.R
	g := wsGen(c)
	w := &world{by: map[types.Hash]*core.Block{}, name: map[types.Hash]string{}, schema: newSchema(c, g)}
	w.start = &core.Block{Number: int64(R.Intn(1000)), Hash: g.NewHash('S'), Weight: g.Weight()}
	w.start.Parent = g.NewHash('G')
	w.name[w.start.Hash] = "S"
	st := newStore(w.start.Hash)
	n := node(c, st)
	px := newProxy(c, n, func(int) plan { return plan{} })
	size := []int{0, 3}[R.Intn(2)]
	cfg := w.cfg(128)
	cs := wsConsumer(c, px.url(R), cfg, R)
	a := newApp(c, w, "app", cfg)
	h := &history{w: w, g: g, a: a, n: map[types.Hash]int{}}
	hs := []*hear{newHear(cs, R.Intn(2)*10), newHear(cs, 0)}
	a.attach(cs, []int{0, 200}[R.Intn(2)])
	first := h.extend(2+R.Intn(12), size)
	k := R.Intn(len(first) + 1)
	produceWS(c, n.p, st, first[:k], R, 0, false)
	startConsumer(c, cs)
	produceWS(c, n.p, st, first[k:], R, 0, false)
	select {
	case <-cs.Ready():
	case <-time.After(patience):
		c.Violate("never-ready", "not ready after %v", patience)
		return
	}
	rounds := 1 + R.Intn(4)
	for i := 0; i < rounds; i++ {
		m, br := h.back(R, size)
		done, err := n.p.Reorg(m.num, m.hash)
		if err != nil {
			c.Violate("reorg-error", "Reorg: %v", err)
			return
		}
		c.Count("markers", 1)
		produceWS(c, n.p, st, br, R, 0, R.Intn(2) == 0)
		done()
		if R.Intn(2) == 0 {
			h.check(c, hs, "midway")
		}
		produceWS(c, n.p, st, h.extend(R.Intn(4), size), R, 0, false)
	}
	h.check(c, hs, "in the end")
	a.detach()
	for _, x := range hs {
		close(x.end)
	}
	closeConsumer(c, cs)
	px.close()
	n.give()
	c.Distinct(len(h.full), rounds, len(w.blocks))
	c.Sample("%d blocks, %d markers, final chain of %d", len(w.blocks), len(h.sent), len(h.full))
}
