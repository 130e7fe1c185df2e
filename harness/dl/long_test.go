//go:build go1.24

package dl

import (
	"fmt"
	"math/big"
	"runtime"
	"testing/synctest"
	"weak"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

func init() {
	registry["C09"] = c09
	registry["C10"] = c10
}

// C09: blocks excluded by the whitelist, and their descendants, never apply.
func c09(run *core.Run) {
	run.Cases("split", run.Pick(800, 12000), splitCase)
	run.Cases("whitelist", run.Pick(12000, 200000), func(c *core.C) {
		bubble(c, func() {
			g := core.NewGen(c.R, uint64(c.Rnd))
			st := startBlock(g, c.R)
			wl := map[uint64]types.Hash{}
			r := &ompRig{c: c, by: map[types.Hash]*node{}, start: st}
			r.tree(g, 3+c.R.Intn(22), c.R.Intn(6), []int{1, 3, 10}[c.R.Intn(3)], []int{0, 40, 70}[c.R.Intn(3)])
			for k := 1 + c.R.Intn(3); k > 0; k-- {
				n := r.nodes[c.R.Intn(len(r.nodes))]
				wl[uint64(n.b.Number)] = n.b.Hash
				if c.R.Intn(6) == 0 {
					wl[uint64(n.b.Number)] = g.NewHash('X') // nothing at this height is acceptable
				}
			}
			cfg := &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: 128, TrackedPrefixes: core.All, Whitelist: wl}
			empty := c.R.Intn(4) == 0
			if empty { // no last block: parents come first, and only exclusion is checked
				cfg.LastHash, cfg.LastWeight = types.Hash{}, new(big.Int)
			}
			r2 := newOmp(c, cfg)
			r2.start, r2.nodes, r2.by = st, r.nodes, r.by
			r = r2
			excluded := map[*node]bool{}
			for _, n := range r.nodes {
				h, ok := wl[uint64(n.b.Number)]
				excluded[n] = (ok && h != n.b.Hash) || (n.parent != nil && excluded[n.parent])
			}
			skip := func(n *node) bool { return excluded[n] }
			nex := 0
			for _, n := range r.nodes {
				if excluded[n] {
					nex++
				}
			}
			order := r.deliveries(c.R.Intn(5), c.R.Intn(6))
			if empty {
				order = r.nodes
				if c.R.Intn(2) == 0 {
					order = append(append([]*node{}, order...), order...)
				}
			}
			for _, n := range order {
				if empty {
					n.got = true
					r.omp.ProcessMessage(headerMsg(n.b))
					synctest.Wait()
					r.lastUpd = r.lastUpd[:0]
					for len(r.upd) > 0 {
						u := <-r.upd
						r.lastUpd = append(r.lastUpd, u)
						u.Done()
					}
				} else {
					r.deliver(n, c.R.Intn(2) == 0)
				}
				for _, u := range r.lastUpd {
					for _, pb := range u.Added() {
						if excluded[r.by[pb.Hash]] {
							c.Violate("excluded-applied", "%s is excluded by the whitelist but was applied", r.name(pb.Hash))
						}
					}
				}
				if !empty {
					r.converged(skip)
				}
				if c.Bad() {
					break
				}
			}
			r.close()
			c.Count("excluded_blocks", nex)
			if nex > 0 {
				c.Distinct(r.fp, len(wl))
			}
			c.Sample("tree of %d, whitelist %d heights, %d excluded, %d reorgs", len(r.nodes), len(wl), nex, r.reorgs)
		})
	})
}

// splitCase: the excluded side of a split goes on for long beside the chain,
// heavier than it, while the threshold is small.
func splitCase(c *core.C) {
	bubble(c, func() {
		R := c.R
		g := core.NewGen(R, uint64(c.Rnd))
		st := startBlock(g, R)
		t := &ompRig{c: c, by: map[types.Hash]*node{}, start: st}
		var p, q *node
		for i := 1 + R.Intn(6); i > 0; i-- {
			p = t.child(g, p, 3)
		}
		q = p
		p = t.child(g, p, 3)
		q = t.child(g, q, 5)
		excluded := map[*node]bool{q: true}
		cfg := &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: int64(2 + R.Intn(12)), TrackedPrefixes: core.All, Whitelist: map[uint64]types.Hash{uint64(p.b.Number): p.b.Hash}}
		n := 20 + R.Intn(100)
		side := []*node{q}
		for i := 0; i < n; i++ {
			if R.Intn(5) > 0 {
				p = t.child(g, p, 3)
			}
			for k := 1 + R.Intn(3); k > 0; k-- {
				q = side[len(side)-1-R.Intn(min(len(side), 3))]
				if q.depth > p.depth+1 {
					continue
				}
				q = t.child(g, q, 5)
				q.b.Weight = new(big.Int).Add(q.b.Weight, p.b.Weight)
				excluded[q] = true
				side = append(side, q)
			}
		}
		r := t.over(cfg)
		tip := st.Hash
		complete := R.Intn(3)
		for _, n := range r.nodes {
			r.deliver(n, complete == 0 || (complete == 1 && R.Intn(2) == 0))
			if !excluded[n] {
				tip = n.b.Hash
			}
			for _, u := range r.lastUpd {
				for _, pb := range u.Added() {
					if excluded[r.by[pb.Hash]] {
						c.Violate("excluded-applied", "%s is excluded by the whitelist but was applied", r.name(pb.Hash))
					}
				}
			}
			if r.tip() != tip && !c.Bad() {
				c.Violate("wrong-head", "head is %s, not %s, after %v", r.name(r.tip()), r.name(tip), n)
			}
			if c.Bad() {
				break
			}
		}
		r.close()
		c.Count("excluded_blocks", len(excluded))
		c.Max("max_excluded_branch", int64(len(excluded)))
		c.Distinct("split", r.fp)
		c.Sample("threshold %d, %d blocks, %d of them on the excluded side", cfg.ReorgThreshold, len(r.nodes), len(excluded))
	})
}

func (n *node) dep() int {
	if n == nil {
		return 0
	}
	return n.depth
}

// common gives the latest common ancestor (nil: the start block).
func common(a, b *node) *node {
	for a != b {
		if a.dep() >= b.dep() {
			a = a.parent
		} else {
			b = b.parent
		}
	}
	return a
}

// bodiesCase: a long run in which the headers of blocks come ahead of their
// rest, while older blocks, complete or not, fall behind the threshold.
func bodiesCase(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	st := startBlock(g, R)
	th := 1 + R.Intn(8)
	r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: int64(th), TrackedPrefixes: core.All})
	r.start = st
	n := 8*th + 10 + R.Intn(40)
	ahead := 1 + R.Intn(3)
	var main []*node
	var p *node
	for i := 0; i < n; i++ {
		p = r.child(g, p, 3)
		main = append(main, p)
	}
	send := func(m *core.Msg) {
		if err := r.omp.ProcessMessage(m); err != nil {
			c.Violate("process-error", "%v", err)
		}
	}
	header := func(x *node) *core.Msg {
		sb := &core.SpecBatch{Num: x.b.Number, Weight: x.b.Weight.Bytes(), Parent: x.b.Parent, Updates: map[string]core.SpecUpdate{"k": {Count: 1}}}
		return &core.Msg{K: core.Key(core.TBatch, x.b.Hash[:]), V: sb.Encode(nil), Src: "t"}
	}
	rest := func(x *node) *core.Msg {
		return &core.Msg{K: core.Key(core.TBatchMsg, x.b.Hash[:], []byte("k")), V: x.b.Updates["k"], Src: "t"}
	}
	first := map[*node]bool{} // the rest was sent first
	early := 0
	for i := 0; i < n+ahead && !c.Bad(); i++ {
		if i < n { // its first part
			x := main[i]
			first[x] = R.Intn(4) == 0
			c.Tracef("%v: header %v", x, !first[x])
			if first[x] {
				send(rest(x))
			} else {
				send(header(x))
			}
			early++
			var q *node
			if i > 0 {
				q = main[i-1]
			}
			if R.Intn(3) == 0 { // a sibling that never completes
				c.Tracef("an incomplete sibling of %v", x)
				y := &node{b: &core.Block{Number: x.b.Number, Hash: g.NewHash('I'), Parent: x.b.Parent, Weight: x.b.Weight}}
				send(header(y))
			}
			if R.Intn(3) == 0 {
				y := r.child(g, q, 1)
				y.b.Weight = new(big.Int).Set(st.Weight)
				if q != nil {
					y.b.Weight = new(big.Int).Set(q.b.Weight)
				}
				r.deliver(y, R.Intn(2) == 0)
			}
		}
		if j := i - ahead; j >= 0 {
			x := main[j]
			x.got = true
			c.Tracef("the other part of %v", x)
			if first[x] {
				send(header(x))
			} else {
				send(rest(x))
			}
			synctest.Wait()
			r.drain()
			on := false
			for k := len(r.chain) - 1; k >= 0 && k >= len(r.chain)-2*ahead-2; k-- {
				on = on || r.chain[k] == x
			}
			if !on {
				c.Violate("block-lost", "%v is complete, but the head is %s", x, r.name(r.tip()))
			}
		}
	}
	r.close()
	c.Count("early_parts", early)
	c.Distinct(r.fp, th, ahead, n)
	c.Sample("threshold %d, %d blocks, parts %d blocks apart", th, n, ahead)
}

// C10: reorgs inside the threshold, at any point of a long run.
func c10(run *core.Run) {
	run.Cases("deep", run.Pick(3000, 40000), func(c *core.C) {
		bubble(c, func() {
			g := core.NewGen(c.R, uint64(c.Rnd))
			st := startBlock(g, c.R)
			th := 1 + c.R.Intn(24)
			r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: int64(th), TrackedPrefixes: core.All})
			r.start = st
			complete := c.R.Intn(2) == 0
			marks := c.R.Intn(3) == 0
			if marks {
				r.marker(st.Number, st.Hash)
				synctest.Wait()
			}
			head := (*node)(nil)
			fast := func(n *node) {
				r.deliver(n, complete)
				if r.tip() != n.b.Hash {
					c.Violate("wrong-head", "head is %s after a linear delivery of %v", r.name(r.tip()), n)
				}
			}
			for round := 1 + c.R.Intn(4); round > 0 && !c.Bad(); round-- {
				for i := 1 + c.R.Intn(4*th); i > 0 && !c.Bad(); i-- {
					head = r.child(g, head, 3)
					fast(head)
				}
				d := 1 + c.R.Intn(th)
				if c.R.Intn(3) == 0 {
					d = th
				}
				var fork *node
				total := 0
				for ; ; d-- { // at most 2*threshold blocks in all since the fork point
					fork = head
					for i := 0; i < d && fork != nil; i++ {
						fork = fork.parent
					}
					first := 0
					if fork != nil {
						first = fork.id + 1
					}
					total = len(r.nodes) - first + d
					if total <= 2*th || d == 1 {
						break
					}
				}
				side := []*node{}
				n := fork
				for len(side) == 0 || n.b.Weight.Cmp(head.b.Weight) <= 0 {
					n = r.child(g, n, 4)
					if len(side) >= d { // make the last one decisive
						n.b.Weight = new(big.Int).Add(head.b.Weight, big.NewInt(int64(1+c.R.Intn(3))))
					}
					side = append(side, n)
				}
				if len(side) > 2 && total+1 <= 2*th && c.R.Intn(2) == 0 {
					for i := range side { // local disorder
						if j := i + c.R.Intn(3); j < len(side) {
							side[i], side[j] = side[j], side[i]
						}
					}
				}
				for _, s := range side {
					r.deliver(s, complete)
				}
				if r.tip() != n.b.Hash {
					c.Violate("reorg-lost", "a heavier branch forking %d below the head (threshold %d) was not applied: head %s", d, th, r.name(r.tip()))
				}
				c.Max("max_fork_depth", int64(d))
				head = n
				if marks && c.R.Intn(2) == 0 { // a rewind to the head changes nothing
					r.marker(head.b.Number, head.b.Hash)
					synctest.Wait()
					c.Count("markers", 1)
				}
			}
			r.close()
			c.Distinct(r.fp)
			c.Sample("threshold %d, %d blocks, %d reorgs", th, len(r.nodes), r.reorgs)
		})
	})
	run.Cases("long", run.Pick(240, 3000), func(c *core.C) {
		bubble(c, func() {
			g := core.NewGen(c.R, uint64(c.Rnd))
			st := startBlock(g, c.R)
			th := 4 + c.R.Intn(12)
			r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: int64(th), TrackedPrefixes: core.All})
			r.start = st
			n := 200 + c.R.Intn(600)
			var held []*node
			var best *node
			for i := 0; i < n && !c.Bad(); i++ {
				// branch off anywhere the threshold allows
				var p *node
				if best != nil {
					p = best
					if c.R.Intn(3) == 0 {
						k := 1 + c.R.Intn(2*th)
						if k > len(r.nodes) {
							k = len(r.nodes)
						}
						q := r.nodes[len(r.nodes)-k]
						a := common(q, best)
						first := 0
						if a != nil {
							first = a.id + 1
						}
						if len(r.nodes)-first+1 <= 2*th-4 && best.depth-a.dep() <= th {
							p = q
						}
					}
				}
				x := r.child(g, p, 3)
				if best == nil || x.b.Weight.Cmp(best.b.Weight) > 0 {
					best = x
				}
				held = append(held, x)
				for len(held) > 3 || (len(held) > 0 && c.R.Intn(2) == 0) {
					k := c.R.Intn(len(held))
					y := held[k]
					held = append(held[:k], held[k+1:]...)
					r.deliver(y, c.R.Intn(2) == 0)
				}
				if len(held) == 0 {
					r.converged(nil)
				}
			}
			for _, y := range held {
				r.deliver(y, false)
			}
			r.converged(nil)
			r.close()
			c.Distinct(r.fp)
			c.Sample("threshold %d, %d blocks, %d reorgs, deepest %d", th, len(r.nodes), r.reorgs, r.maxRemoved)
		})
	})
	run.Cases("bodies", run.Pick(1200, 20000), func(c *core.C) { bubble(c, func() { bodiesCase(c) }) })
	run.Cases("memory", run.Pick(16, 64), func(c *core.C) {
		g := core.NewGen(c.R, uint64(c.Rnd))
		bubble(c, func() {
			st := startBlock(g, c.R)
			th := 4 + c.R.Intn(12)
			omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: int64(th), TrackedPrefixes: core.All})
			if err != nil {
				c.Violate("omp-new", "%v", err)
				return
			}
			upd := make(chan *delivery.ChainUpdate, 64)
			omp.Subscribe(upd)
			var live []weak.Pointer[delivery.PendingBatch]
			head := st
			N := 1500
			small := c.I%4 == 3 // many small blocks: bookkeeping that stays behind
			if small {
				N = 12000
			}
			orphans := 0
			big1 := make([]byte, 32<<10)
			if small {
				big1 = big1[:16]
			}
			var base runtime.MemStats
			incomplete, applied := 0, 0
			marks := c.R.Intn(2) == 0
			for i := 0; i < N; i++ {
				b := &core.Block{Number: head.Number + 1, Hash: g.NewHash('B'), Parent: head.Hash, Weight: new(big.Int).Add(head.Weight, big.NewInt(2)), Updates: map[string][]byte{"k": []byte(fmt.Sprint(i))}}
				if c.R.Intn(4) == 0 { // an uncle
					u := &core.Block{Number: b.Number, Hash: g.NewHash('B'), Parent: head.Hash, Weight: new(big.Int).Add(head.Weight, big.NewInt(1)), Updates: map[string][]byte{"k": {1}}}
					if c.R.Intn(3) == 0 { // and one on top of it, first
						k := &core.Block{Number: u.Number + 1, Hash: g.NewHash('B'), Parent: u.Hash, Weight: u.Weight, Updates: map[string][]byte{"k": {2}}}
						omp.ProcessMessage(headerMsg(k))
					}
					omp.ProcessMessage(headerMsg(u))
				}
				if !small && c.R.Intn(5) == 0 { // its parent never comes
					o := &core.Block{Number: b.Number - 1, Hash: g.NewHash('B'), Parent: g.NewHash('M'), Weight: new(big.Int).Sub(head.Weight, big.NewInt(1)), Updates: map[string][]byte{"k": append([]byte{}, big1...)}}
					omp.ProcessMessage(headerMsg(o))
					orphans++
				}
				if c.R.Intn(5) == 0 { // a block that never completes
					sb := &core.SpecBatch{Num: b.Number, Weight: b.Weight.Bytes(), Parent: head.Hash, Updates: map[string]core.SpecUpdate{"k": {Value: append([]byte{}, big1...)}, "never/": {Count: 3}}}
					h := g.NewHash('I')
					omp.ProcessMessage(&core.Msg{K: core.Key(core.TBatch, h[:]), V: sb.Encode(nil), Src: "t"})
					incomplete++
				}
				if c.R.Intn(3) == 0 { // its value comes ahead of the header
					v := append([]byte{}, big1...)
					omp.ProcessMessage(&core.Msg{K: core.Key(core.TBatchMsg, b.Hash[:], []byte("v/1")), V: v, Src: "t"})
					sb := &core.SpecBatch{Num: b.Number, Weight: b.Weight.Bytes(), Parent: b.Parent, Updates: map[string]core.SpecUpdate{"v/": {Count: 1}}}
					omp.ProcessMessage(&core.Msg{K: core.Key(core.TBatch, b.Hash[:]), V: sb.Encode(nil), Src: "t"})
				} else {
					omp.ProcessMessage(headerMsg(b))
				}
				synctest.Wait()
				for {
					select {
					case u := <-upd:
						for _, pb := range u.Added() {
							if small {
								applied++
								continue
							}
							live = append(live, weak.Make(pb))
						}
						u.Done()
						continue
					default:
					}
					break
				}
				head = b
				if marks && (i == 50 || i == 900) {
					omp.ProcessReorg(b.Number, b.Hash)
					synctest.Wait()
				}
				if i == 200 {
					runtime.GC()
					runtime.ReadMemStats(&base)
				}
			}
			if !small {
				applied = len(live)
			}
			if applied < N {
				c.Violate("reorg-lost", "only %d of %d blocks applied", applied, N)
			}
			runtime.GC()
			runtime.GC()
			var end runtime.MemStats
			runtime.ReadMemStats(&end)
			alive := 0
			for _, w := range live {
				if w.Value() != nil {
					alive++
				}
			}
			c.Count("blocks_tracked", len(live))
			c.Max("max_blocks_retained", int64(alive))
			c.Max("max_heap_growth_kib", (int64(end.HeapAlloc)-int64(base.HeapAlloc))>>10)
			if alive > 8*th+64 {
				c.Violate("retains-blocks", "%d of %d applied blocks still held with a threshold of %d", alive, len(live), th)
			}
			if grow := int64(end.HeapAlloc) - int64(base.HeapAlloc); small {
				c.Max("max_heap_growth_small_kib", grow>>10)
				c.Count("small_blocks_applied", applied)
				if grow > 400<<10 {
					c.Violate("retains-bookkeeping", "heap grew by %d KiB over %d small blocks with a threshold of %d", grow>>10, N, th)
				}
			} else if grow > int64(orphans)*(32<<10)/2 {
				c.Violate("retains-orphans", "heap grew by %d KiB while %d blocks of 32 KiB without a parent fell behind", grow>>10, orphans)
			}
			// every incomplete block pins 32 KiB; far fewer may remain
			if grow := int64(end.HeapAlloc) - int64(base.HeapAlloc); !small && grow > int64(incomplete)*(32<<10)/2 {
				c.Violate("retains-incomplete", "heap grew by %d KiB while %d incomplete blocks of 32 KiB fell behind", grow>>10, incomplete)
			}
			omp.Close()
			synctest.Wait()
			runtime.KeepAlive(omp)
			c.Distinct("mem", th, len(live), incomplete)
		})
	})
}
