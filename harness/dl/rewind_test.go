//go:build go1.21

package dl

import (
	"fmt"
	"sort"
	"testing/synctest"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

func init() { registry["C23"] = c23 }

// C23: a reorg marker rewinds the consumer, once, in stream order.
func c23(run *core.Run) {
	run.Cases("rewind", run.Pick(5000, 100000), func(c *core.C) { bubble(c, func() { rewindCase(c, false, false) }) })
	run.Cases("rewind-burst", run.Pick(5000, 100000), func(c *core.C) { bubble(c, func() { rewindCase(c, true, false) }) })
	run.Cases("rewind-old", run.Pick(1500, 30000), func(c *core.C) { bubble(c, func() { oldCase(c) }) })
	run.Cases("assembler", run.Pick(3000, 60000), assemblerCase)
	run.Cases("rewind-again", run.Pick(4000, 100000), func(c *core.C) { bubble(c, func() { rewindCase(c, false, true) }) })
}

// marker rewinds the consumer, as a message or as a websocket notice does.
func (r *ompRig) marker(num int64, hash types.Hash) {
	var err error
	if r.c.R.Intn(3) == 0 {
		err = r.omp.ProcessReorg(num, hash)
	} else {
		err = r.omp.ProcessMessage(&core.Msg{K: core.Key(core.TReorg, hash[:]), V: core.PutLong(nil, num), Src: "t"})
	}
	if err != nil {
		r.c.Violate("process-error", "marker: %v", err)
	}
}

// oldCase: blocks that were begun but not completed before they fell behind
// the threshold are wanted again once a marker rewinds to below them.
func oldCase(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	st := startBlock(g, R)
	th := int64(2 + R.Intn(5))
	r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: th, TrackedPrefixes: core.All})
	r.start = st
	var head *node
	ext := func() {
		n := r.child(g, head, 3)
		r.deliver(n, R.Intn(2) == 0)
		if r.tip() != n.b.Hash {
			c.Violate("rewind-stuck", "%v was delivered on the head but the head is %s", n, r.name(r.tip()))
		}
		head = n
	}
	header := func(n *node) *core.Msg {
		sb := &core.SpecBatch{Num: n.b.Number, Weight: n.b.Weight.Bytes(), Parent: n.b.Parent, Updates: map[string]core.SpecUpdate{"k": {Count: 1}}}
		return &core.Msg{K: core.Key(core.TBatch, n.b.Hash[:]), V: sb.Encode(nil), Src: "t"}
	}
	rest := func(n *node) *core.Msg {
		return &core.Msg{K: core.Key(core.TBatchMsg, n.b.Hash[:], []byte("k")), V: n.b.Updates["k"], Src: "t"}
	}
	for i := R.Intn(4); i >= 0; i-- {
		ext()
	}
	base := head
	var begun []*node
	for i := 1 + R.Intn(3); i > 0; i-- {
		x := r.child(g, base, 3)
		c.Tracef("header only of %v on %v", x, base)
		if err := r.omp.ProcessMessage(header(x)); err != nil {
			c.Violate("process-error", "%v", err)
		}
		begun = append(begun, x)
		if R.Intn(2) == 0 {
			ext()
		}
	}
	var lost, kid *node
	if R.Intn(2) == 0 { // a block whose parent has not come yet
		lost = r.child(g, base, 1)
		kid = r.child(g, lost, 1)
	}
	for i := int(th)*4 + 4 + R.Intn(8); i > 0; i-- {
		ext()
		if kid != nil && !kid.got && kid.b.Weight.Cmp(head.b.Weight) < 0 && head.b.Number-kid.b.Number <= th {
			r.deliver(kid, R.Intn(2) == 0)
		}
	}
	late := R.Intn(2) == 0
	if late { // its rest comes, too late to matter
		if err := r.omp.ProcessMessage(rest(begun[0])); err != nil {
			c.Violate("process-error", "%v", err)
		}
		synctest.Wait()
		r.drain()
	}
	if r.tip() != head.b.Hash {
		c.Violate("rewind-stuck", "head is %s without a marker", r.name(r.tip()))
	}
	r.marker(base.b.Number, base.b.Hash)
	synctest.Wait()
	r.drain()
	for len(r.chain) > 0 && r.chain[len(r.chain)-1] != base {
		r.chain = r.chain[:len(r.chain)-1]
	}
	if lost != nil && kid.got && R.Intn(3) > 0 {
		r.deliver(lost, R.Intn(2) == 0)
		if r.tip() != lost.b.Hash && r.tip() != kid.b.Hash {
			c.Violate("redelivery-after-marker", "after the marker for %v, %v was delivered but the head is %s", base, lost, r.name(r.tip()))
		}
		r.deliver(kid, R.Intn(2) == 0)
		if r.tip() != kid.b.Hash {
			c.Violate("redelivery-after-marker", "after the marker for %v, %v and %v were delivered but the head is %s", base, lost, kid, r.name(r.tip()))
		}
		c.Count("late_parents", 1)
		r.marker(base.b.Number, base.b.Hash)
		synctest.Wait()
		r.drain()
		for len(r.chain) > 0 && r.chain[len(r.chain)-1] != base {
			r.chain = r.chain[:len(r.chain)-1]
		}
	}
	x := begun[R.Intn(len(begun))]
	x.got = true
	c.Tracef("%v once more, in full", x)
	for _, m := range []*core.Msg{header(x), rest(x)} {
		if err := r.omp.ProcessMessage(m); err != nil {
			c.Violate("process-error", "%v", err)
		}
	}
	synctest.Wait()
	r.drain()
	if r.tip() != x.b.Hash {
		c.Violate("redelivery-after-marker", "after the marker for %v, %v was delivered in full but the head is %s", base, x, r.name(r.tip()))
	}
	head = x
	for i := R.Intn(6); i > 0; i-- {
		ext()
	}
	r.close()
	c.Count("markers", 1)
	c.Distinct("old", th, len(r.nodes), len(begun), late, r.fp)
	c.Sample("threshold %d, %d blocks, %d begun", th, len(r.nodes), len(begun))
}

// assemblerCase: the assembler on its own announces each marker once to each
// of its subscribers, and takes the blocks before it again.
func assemblerCase(c *core.C) {
	R := c.R
	g := core.NewGen(R, 1)
	r := buildRig(c, mpConf{schema: g.Schema("def"), track: core.All, th: 64, blocks: 2 + R.Intn(6), size: 1 + R.Intn(6)})
	subs := make([]chan map[int64]types.Hash, 1+R.Intn(3))
	for i := range subs {
		subs[i] = make(chan map[int64]types.Hash, 64)
		r.mp.SubscribeReorgs(subs[i])
	}
	n := 0
	for k := 2 + R.Intn(4); k > 0; k-- {
		for _, u := range r.units { // every block comes out once per round
			if R.Intn(3) > 0 {
				u.done, u.seen = false, map[string]bool{}
				for _, m := range u.msgs {
					r.feed(u, m)
				}
			}
		}
		u := r.units[R.Intn(len(r.units))]
		h, num := u.b.Hash, int64(R.Intn(1<<30))
		n++
		var err error
		if R.Intn(2) == 0 {
			err = r.mp.ProcessReorg(num, h)
		} else {
			err = r.mp.ProcessMessage(&core.Msg{K: core.Key(core.TReorg, h[:]), V: core.PutLong(nil, num), Src: "m"})
		}
		if err != nil {
			c.Violate("process-error", "marker: %v", err)
		}
		for i, ch := range subs {
			if len(ch) != 1 {
				c.Violate("reorg-notice", "subscriber %d heard marker %d %d times", i, n, len(ch))
			} else if x := <-ch; len(x) != 1 || x[num] != h {
				c.Violate("reorg-notice", "subscriber %d heard %v for the marker %d=%x", i, x, num, h[24:])
			}
		}
	}
	c.Count("markers", n)
	c.Distinct("assembler", r.fp)
	c.Sample("assembler: %d blocks, %d markers", len(r.units), n)
}

// rewindCase: a chain, then a marker naming one of its blocks, then a fresh
// branch on that block; repeatedly. In burst mode nothing waits for the
// orderer: the stream's own order is all there is.
func rewindCase(c *core.C, burst, again bool) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	st := startBlock(g, R)
	th := int64(4 + R.Intn(12))
	r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: th, TrackedPrefixes: core.All})
	r.start = st
	type note struct {
		num  int64
		hash types.Hash
	}
	rch := make(chan map[int64]types.Hash, 256)
	rch2 := make(chan map[int64]types.Hash, 256)
	r.omp.SubscribeReorg(rch)
	if R.Intn(2) == 0 {
		r.omp.SubscribeReorg(rch2)
	} else {
		rch2 = nil
	}
	var sent, heard []note
	extend := func(p *node, n int) []*node {
		out := []*node{}
		for i := 0; i < n; i++ {
			p = r.child(g, p, 3)
			out = append(out, p)
		}
		return out
	}
	send := func(n *node) {
		n.got = true
		c.Count("blocks_delivered", 1)
		c.Tracef("deliver %v num=%d parent=%v w=%v", n, n.b.Number, r.name(n.b.Parent), n.b.Weight)
		if R.Intn(2) == 0 {
			r.omp.ProcessCompleteBatch(&delivery.PendingBatch{Number: n.b.Number, Hash: n.b.Hash, ParentHash: n.b.Parent, Weight: n.b.Weight, Values: n.b.Updates, Deletes: map[string]struct{}{}})
		} else if err := r.omp.ProcessMessage(headerMsg(n.b)); err != nil {
			c.Violate("process-error", "%v", err)
		}
	}
	// The application follows updates and rewinds; both come out of the
	// orderer's goroutine, so at quiescence it is enough to replay them in the
	// order the stream implies: updates up to the marker, the rewind, the rest.
	rewindTo := func(h types.Hash) bool {
		for i := len(r.chain) - 1; i >= 0; i-- {
			if r.chain[i].b.Hash == h {
				r.chain = r.chain[:i+1]
				return true
			}
		}
		if h == st.Hash {
			r.chain = r.chain[:0]
			return true
		}
		return false
	}
	cur := extend(nil, 2+R.Intn(30))
	order := func(ns []*node) []*node {
		// nobody is displaced by more than two places
		out := append([]*node{}, ns...)
		if R.Intn(2) == 0 {
			at := map[*node]int{}
			for i, n := range ns {
				at[n] = i + R.Intn(3)
			}
			sort.SliceStable(out, func(i, j int) bool { return at[out[i]] < at[out[j]] })
		}
		return out
	}
	for _, n := range order(cur) {
		send(n)
		if !burst {
			synctest.Wait()
			r.drain()
		}
	}
	full := append([]*node{}, cur...) // the chain as the stream has it
	rounds := 1 + R.Intn(3)
	fp := fmt.Sprint(th, len(cur))
	for k := 0; k < rounds && !c.Bad(); k++ {
		if burst && R.Intn(2) == 0 {
			synctest.Wait()
			r.drain()
		}
		at := R.Intn(len(full)) // index of the block to rewind to; -1: the start
		var base *node
		var old []*node
		num, hash := st.Number, st.Hash
		if R.Intn(8) > 0 {
			base = full[at]
			num, hash = base.b.Number, base.b.Hash
			old = append(old, full[at+1:]...)
			full = full[:at+1]
		} else {
			old = append(old, full...)
			full = full[:0]
		}
		sent = append(sent, note{num, hash})
		c.Tracef("marker num=%d hash=%s", num, r.name(hash))
		c.Count("markers", 1)
		r.marker(num, hash)
		var br []*node
		if again {
			// the producer goes through (some of) the same blocks once more
			br = old[:R.Intn(len(old)+1)]
			if len(br) > 0 {
				base = br[len(br)-1]
			}
			c.Count("blocks_redelivered", len(br))
			synctest.Wait()
			r.drain()
			rewindTo(hash)
		}
		fresh := 1 + R.Intn(20)
		if again && len(br) > 0 && R.Intn(3) == 0 {
			fresh = 0
		}
		br = append(append([]*node{}, br...), extend(base, fresh)...)
		full = append(full, br...)
		fp += fmt.Sprint(",", at, len(br))
		apply := func() {
			// updates still in the channel before the rewind belong to the
			// chain before it; the first block of the new branch marks the point
			for len(r.upd) > 0 {
				u := <-r.upd
				if a := u.Added(); len(a) > 0 && !again && a[0].Hash == br[0].b.Hash {
					if !rewindTo(hash) {
						c.Violate("rewind-unknown", "the new branch on %s came out before %s itself was applied", r.name(hash), r.name(hash))
					}
				}
				r.apply(u)
			}
		}
		inOrder := true
		ord := order(br)
		for i := range ord {
			inOrder = inOrder && ord[i] == br[i]
		}
		for _, n := range ord {
			send(n)
			if !burst {
				synctest.Wait()
				apply()
			}
			on := false
			for _, x := range r.chain {
				on = on || x == n
			}
			if again && inOrder && !on {
				c.Violate("redelivery-after-marker", "after the marker for %s, %v was delivered but the head is %s", r.name(hash), n, r.name(r.tip()))
			}
		}
		synctest.Wait()
		apply()
		for len(rch) > 0 {
			for a, b := range <-rch {
				heard = append(heard, note{a, b})
			}
		}
		if len(heard) != len(sent) || heard[len(heard)-1] != sent[len(sent)-1] {
			c.Violate("reorg-notice", "markers sent %d, notices heard %d", len(sent), len(heard))
		}
		if rch2 != nil && len(rch2) != len(sent) {
			c.Violate("reorg-notice", "second subscriber heard %d of %d markers", len(rch2), len(sent))
		}
		if len(r.chain) != len(full) || r.tip() != full[len(full)-1].b.Hash {
			c.Violate("rewind-stuck", "after the marker for %s and a branch of %d blocks the head is %s, expected %v", r.name(hash), len(br), r.name(r.tip()), full[len(full)-1])
		}
	}
	if rch2 != nil {
		for i := 0; len(rch2) > 0; i++ {
			for a, b := range <-rch2 {
				if i < len(sent) && (sent[i] != note{a, b}) {
					c.Violate("reorg-notice", "second subscriber's notice %d is wrong", i)
				}
			}
		}
	}
	r.close()
	c.Distinct(fp, r.fp, burst)
	c.Sample("threshold %d, %d blocks, %d markers", th, len(r.nodes), len(sent))
}
