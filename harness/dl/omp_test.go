//go:build go1.21

// Monitors over the chain orderer. Every case runs in a synctest bubble:
// virtual time, and exact quiescence after each stimulus.
package dl

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"runtime/debug"
	"testing"
	"testing/synctest"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

// bubble runs fn in a synctest bubble, classifying panics of fn itself.
func bubble(c *core.C, fn func()) {
	synctest.Test(c.T, func(t *testing.T) {
		defer func() {
			if e := recover(); e != nil {
				c.PanicViolation(e, string(debug.Stack()))
			}
		}()
		fn()
	})
}

// node is a block of a generated tree.
type node struct {
	id     int
	b      *core.Block
	parent *node // nil: the start block is the parent
	depth  int
	got    bool
}

func (n *node) String() string {
	if n == nil {
		return "S"
	}
	return fmt.Sprintf("n%d", n.id)
}

type ompRig struct {
	c      *core.C
	omp    *delivery.OrderedMessageProcessor
	upd    chan *delivery.ChainUpdate
	start  *core.Block
	known  bool // the start block is known
	nodes  []*node
	by     map[types.Hash]*node
	chain  []*node // applied blocks above the start, oldest first
	base   types.Hash
	fp     uint64
	heldWt *big.Int
	// monitors
	continuity, converge bool
	emitted              map[types.Hash]int
	updates, reorgs      int
	maxRemoved           int
	manual               bool // do not call Done
	lastUpd              []*delivery.ChainUpdate
}

func newOmp(c *core.C, cfg *delivery.ConsumerConfig) *ompRig {
	r := &ompRig{c: c, by: map[types.Hash]*node{}, emitted: map[types.Hash]int{}, continuity: true}
	omp, err := delivery.NewOrderedMessageProcessor(cfg)
	if err != nil {
		c.Violate("omp-new", "NewOrderedMessageProcessor: %v", err)
		c.Abort()
	}
	r.omp = omp
	r.upd = make(chan *delivery.ChainUpdate, 4096)
	omp.Subscribe(r.upd)
	r.base = cfg.LastHash
	r.known = cfg.LastHash != types.Hash{}
	return r
}

func (r *ompRig) name(h types.Hash) string {
	if n := r.by[h]; n != nil {
		return n.String()
	}
	if r.start != nil && h == r.start.Hash {
		return "S"
	}
	return fmt.Sprintf("?%x", h[24:])
}

func (r *ompRig) tip() types.Hash {
	if len(r.chain) == 0 {
		return r.base
	}
	return r.chain[len(r.chain)-1].b.Hash
}

func (r *ompRig) tipWeight() *big.Int {
	if len(r.chain) == 0 {
		return r.start.Weight
	}
	return r.chain[len(r.chain)-1].b.Weight
}

func headerMsg(b *core.Block) *core.Msg {
	sb := &core.SpecBatch{Num: b.Number, Weight: b.Weight.Bytes(), Parent: b.Parent, Updates: map[string]core.SpecUpdate{}}
	for k, v := range b.Updates {
		sb.Updates[k] = core.SpecUpdate{Value: v}
	}
	return &core.Msg{K: core.Key(core.TBatch, b.Hash[:]), V: sb.Encode(nil), Src: "t"}
}

// deliver hands a block to the orderer and waits for quiescence.
func (r *ompRig) deliver(n *node, complete bool) {
	r.c.Tracef("deliver %v num=%d parent=%v w=%v complete=%v", n, n.b.Number, r.name(n.b.Parent), n.b.Weight, complete)
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %d %v %v", r.fp, n.id, r.name(n.b.Parent), n.b.Weight)
	r.fp = h.Sum64()
	n.got = true
	if complete {
		r.omp.ProcessCompleteBatch(&delivery.PendingBatch{Number: n.b.Number, Hash: n.b.Hash, ParentHash: n.b.Parent, Weight: n.b.Weight, Values: n.b.Updates, Deletes: map[string]struct{}{}})
	} else if err := r.omp.ProcessMessage(headerMsg(n.b)); err != nil {
		r.c.Violate("process-error", "ProcessMessage: %v", err)
	}
	r.c.Count("blocks_delivered", 1)
	synctest.Wait()
	r.drain()
}

func (r *ompRig) drain() {
	r.lastUpd = r.lastUpd[:0]
	for {
		select {
		case u := <-r.upd:
			r.lastUpd = append(r.lastUpd, u)
			r.apply(u)
			continue
		default:
		}
		return
	}
}

func (r *ompRig) names(pbs []*delivery.PendingBatch) string {
	s := "["
	for i, pb := range pbs {
		if i > 0 {
			s += " "
		}
		s += r.name(pb.Hash)
	}
	return s + "]"
}

// apply is the continuity monitor: it replays an update on the chain built so
// far exactly as an application would.
func (r *ompRig) apply(u *delivery.ChainUpdate) {
	c := r.c
	add, rem := u.Added(), u.Removed()
	r.updates++
	c.Count("updates", 1)
	c.Count("blocks_added", len(add))
	if len(rem) > 0 {
		r.reorgs++
		c.Count("reorgs", 1)
		c.Count("blocks_removed", len(rem))
		c.Max("max_reorg_depth", int64(len(rem)))
	}
	c.Tracef("update added=%s removed=%s", r.names(add), r.names(rem))
	if len(add)+len(rem) == 0 {
		c.Violate("empty-update", "an update without blocks")
		return
	}
	before := r.tipWeight()
	if len(rem) > len(r.chain) {
		c.Violate("removed-not-suffix", "update removes %s, but only %d blocks are applied", r.names(rem), len(r.chain))
	} else {
		off := len(r.chain) - len(rem)
		for i, pb := range rem {
			if r.chain[off+i].b.Hash != pb.Hash {
				c.Violate("removed-not-suffix", "update removes %s, but the applied chain ends with %v", r.names(rem), r.chain[off:])
				break
			}
		}
		r.chain = r.chain[:off]
	}
	if len(add) == 0 {
		c.Violate("removed-only", "update removes %s and adds nothing", r.names(rem))
	}
	prev := r.tip()
	for i, pb := range add {
		n := r.by[pb.Hash]
		if n == nil {
			c.Violate("unknown-block", "update adds a block never delivered: %x", pb.Hash[:])
			return
		}
		if !n.got {
			c.Violate("unknown-block", "update adds %v before it was delivered", n)
		}
		if pb.ParentHash != n.b.Parent || pb.Number != n.b.Number || pb.Weight.Cmp(n.b.Weight) != 0 {
			c.Violate("content", "%v in the update is not the delivered block", n)
		} else if len(pb.Values) != len(n.b.Updates) {
			c.Violate("content", "%v in the update lost its values", n)
		}
		if pb.ParentHash != prev {
			if r.known || len(r.chain) > 0 || i > 0 {
				c.Violate("not-linked", "added %v has parent %v, but it follows %v", n, r.name(pb.ParentHash), r.name(prev))
			}
		}
		if len(rem) > 0 && i == 0 && rem[0].Hash == pb.Hash {
			c.Violate("removed-and-added", "%v removed and added by one update", n)
		}
		r.emitted[pb.Hash]++
		r.chain = append(r.chain, n)
		prev = pb.Hash
	}
	if len(rem) > 0 && len(add) > 0 && r.tipWeight().Cmp(before) <= 0 {
		c.Violate("reorg-not-heavier", "reorg from weight %v to weight %v", before, r.tipWeight())
	}
	for _, pb := range add {
		for _, q := range rem {
			if pb.Hash == q.Hash {
				c.Violate("removed-and-added", "%v removed and added by one update", r.name(pb.Hash))
			}
		}
	}
	if !r.manual {
		u.Done()
	}
}

// best gives the heaviest block connected to the start by delivered blocks.
func (r *ompRig) best(skip func(*node) bool) *node {
	ok := map[*node]bool{}
	var best *node
	for _, n := range r.nodes { // parents precede children
		if !n.got || (n.parent != nil && !ok[n.parent]) || (skip != nil && skip(n)) {
			continue
		}
		ok[n] = true
		if best == nil || n.b.Weight.Cmp(best.b.Weight) > 0 {
			best = n
		}
	}
	return best
}

// converged is the convergence monitor, evaluated at a quiescent point.
func (r *ompRig) converged(skip func(*node) bool) {
	b := r.best(skip)
	r.c.Count("quiescent_points", 1)
	for _, n := range r.nodes { // the head must not have a delivered child
		if n.got && n.b.Parent == r.tip() && (skip == nil || !skip(n)) {
			r.c.Violate("head-not-extended", "%v is delivered and its parent %s is the head, but it was not applied", n, r.name(r.tip()))
		}
	}
	if b == nil {
		if len(r.chain) > 0 {
			r.c.Violate("wrong-head", "head is %v although no block connects to the start", r.chain[len(r.chain)-1])
		}
		return
	}
	if r.tipWeight().Cmp(b.b.Weight) != 0 && b.b.Weight.Cmp(r.start.Weight) > 0 {
		r.c.Violate("wrong-head", "head is %s (weight %v), the heaviest connected block is %v (weight %v)", r.name(r.tip()), r.tipWeight(), b, b.b.Weight)
	}
}

func (r *ompRig) close() {
	r.omp.Close()
	synctest.Wait()
}

// tree draws a tree over the start block. step: weight increments in
// [1,step]; small steps make ties common.
func (r *ompRig) tree(g *core.Gen, n, branch, step int, linear int) {
	R := r.c.R
	for i := 0; i < n; i++ {
		var p *node
		if len(r.nodes) > 0 {
			switch {
			case R.Intn(100) < linear: // extend the newest
				p = r.nodes[len(r.nodes)-1]
			case branch > 0 && len(r.nodes) > branch:
				p = r.nodes[len(r.nodes)-1-R.Intn(branch)]
			default:
				k := R.Intn(len(r.nodes) + 1)
				if k < len(r.nodes) {
					p = r.nodes[k]
				}
			}
		}
		r.child(g, p, step)
	}
}

func (r *ompRig) child(g *core.Gen, p *node, step int) *node {
	pn, ph, pw, d := r.start.Number, r.start.Hash, r.start.Weight, 0
	if p != nil {
		pn, ph, pw, d = p.b.Number, p.b.Hash, p.b.Weight, p.depth
	}
	n := &node{id: len(r.nodes), parent: p, depth: d + 1}
	n.b = &core.Block{Number: pn + 1, Hash: g.NewHash('B'), Parent: ph, Weight: new(big.Int).Add(pw, big.NewInt(int64(1+r.c.R.Intn(step)))), Updates: map[string][]byte{"k": []byte(fmt.Sprint(n.id))}}
	r.nodes = append(r.nodes, n)
	r.by[n.b.Hash] = n
	return n
}

func startBlock(g *core.Gen, R interface{ Intn(int) int }) *core.Block {
	w := big.NewInt(int64(1 + R.Intn(5000)))
	if R.Intn(3) == 0 {
		// total difficulties are big: start shortly before the boundary of an
		// integer or float representation, so that chains cross it
		w = new(big.Int).Lsh(big.NewInt(1), []uint{8, 15, 16, 24, 31, 32, 53, 63, 64, 65, 80, 128, 256}[R.Intn(13)])
		if v := new(big.Int).Sub(w, big.NewInt(int64(R.Intn(60)))); v.Sign() > 0 {
			w = v
		}
	}
	return &core.Block{Number: int64(1 + R.Intn(1000)), Hash: g.NewHash('S'), Parent: g.NewHash('P'), Weight: w}
}

// deliveries draws a delivery order of the tree with repeats.
func (r *ompRig) deliveries(mode int, dups int) []*node {
	R := r.c.R
	out := append([]*node{}, r.nodes...)
	switch mode {
	case 0: // any order
		R.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	case 1: // parents first, local disorder
		for i := range out {
			j := i + R.Intn(4)
			if j < len(out) {
				out[i], out[j] = out[j], out[i]
			}
		}
	case 2: // reversed
		for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
			out[i], out[j] = out[j], out[i]
		}
	case 3: // parents first
	case 4: // one block very late
		if len(out) > 1 {
			k := R.Intn(len(out))
			x := out[k]
			out = append(append(append([]*node{}, out[:k]...), out[k+1:]...), x)
		}
	}
	for i := 0; i < dups; i++ {
		d := out[R.Intn(len(out))]
		at := R.Intn(len(out) + 1)
		out = append(out, nil)
		copy(out[at+1:], out[at:])
		out[at] = d
	}
	return out
}

func init() {
	registry["C06"] = func(run *core.Run) { forks(run, false) }
	registry["C07"] = func(run *core.Run) { forks(run, true) }
}

func forkCase(c *core.C, converge bool) {
	bubble(c, func() {
		g := core.NewGen(c.R, uint64(c.Rnd))
		st := startBlock(g, c.R)
		t := &ompRig{c: c, by: map[types.Hash]*node{}, start: st}
		t.tree(g, 2+c.R.Intn(24), c.R.Intn(6), []int{1, 2, 3, 10}[c.R.Intn(4)], []int{0, 40, 70, 90}[c.R.Intn(4)])
		th := 128
		if c.R.Intn(2) == 0 {
			th = t.tight()
		}
		r := t.over(&delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: int64(th), TrackedPrefixes: core.All})
		dl := r.deliveries(c.R.Intn(5), c.R.Intn(6))
		complete := c.R.Intn(3)
		for _, n := range dl {
			r.deliver(n, complete == 0 || (complete == 1 && c.R.Intn(2) == 0))
			if converge {
				r.converged(nil)
			}
			if c.Bad() {
				break
			}
		}
		r.close()
		c.Distinct(r.fp)
		c.Sample("tree of %d blocks, %d deliveries, %d updates, %d reorgs", len(r.nodes), len(dl), r.updates, r.reorgs)
	})
}

// tight gives the least threshold the whole tree is within: it covers the
// tree's height, and twice the threshold covers its blocks.
func (r *ompRig) tight() int {
	th := len(r.nodes)/2 + 2
	for _, n := range r.nodes {
		if n.depth > th {
			th = n.depth
		}
	}
	return th
}

// over starts an orderer over a tree drawn before it.
func (r *ompRig) over(cfg *delivery.ConsumerConfig) *ompRig {
	r2 := newOmp(r.c, cfg)
	r2.start, r2.nodes, r2.by = r.start, r.nodes, r.by
	return r2
}

// lateCase: two long branches; the first blocks of one of them come last.
func lateCase(c *core.C, converge bool) {
	bubble(c, func() {
		R := c.R
		g := core.NewGen(R, uint64(c.Rnd))
		st := startBlock(g, R)
		t := &ompRig{c: c, by: map[types.Hash]*node{}, start: st}
		var fork *node
		for i := R.Intn(3); i > 0; i-- {
			fork = t.child(g, fork, 3)
		}
		k, l := len(t.nodes), 3+R.Intn(30)
		a, b := fork, fork
		var side []*node
		for i := 0; i < l; i++ {
			a = t.child(g, a, 3)
			b = t.child(g, b, 3)
			side = append(side, b)
			if R.Intn(8) == 0 {
				t.child(g, b, 3)
			}
		}
		if R.Intn(4) > 0 { // the branch with the gap wins
			b = t.child(g, b, 3)
			if w := new(big.Int).Add(a.b.Weight, big.NewInt(int64(1+R.Intn(3)))); w.Cmp(b.b.Weight) > 0 {
				b.b.Weight = w
			}
		}
		th := t.tight()
		held := map[*node]bool{}
		for i := 1 + R.Intn(2); i > 0; i-- {
			held[side[R.Intn(1+l/4)]] = true
		}
		r := t.over(&delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: int64(th), TrackedPrefixes: core.All})
		var order, last []*node
		for _, n := range r.nodes {
			if held[n] {
				last = append(last, n)
			} else {
				order = append(order, n)
			}
		}
		if R.Intn(3) == 0 {
			R.Shuffle(len(order)-k, func(i, j int) { order[k+i], order[k+j] = order[k+j], order[k+i] })
		}
		R.Shuffle(len(last), func(i, j int) { last[i], last[j] = last[j], last[i] })
		for _, n := range append(order, last...) {
			r.deliver(n, R.Intn(2) == 0)
			if converge {
				r.converged(nil)
			}
			if c.Bad() {
				break
			}
		}
		r.close()
		c.Distinct("late", r.fp)
		c.Max("max_late_by", int64(l))
	})
}

// emptyCase: a consumer that starts without a last block, on a stream that
// starts in order (its first block is the chain's first, and no block of the
// first dozen comes before its parent), and goes on in any order.
func emptyCase(c *core.C, converge bool) {
	bubble(c, func() {
		g := core.NewGen(c.R, uint64(c.Rnd))
		st := startBlock(g, c.R)
		r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: []int64{0, st.Number}[c.R.Intn(2)], LastWeight: new(big.Int), ReorgThreshold: 128, TrackedPrefixes: core.All})
		r.start = st
		step := []int{1, 2, 3, 10}[c.R.Intn(4)]
		r.child(g, nil, step)
		for _, linear, n := 0, []int{0, 40, 70, 90}[c.R.Intn(4)], 2+c.R.Intn(24); n > 0; n-- {
			p := r.nodes[len(r.nodes)-1]
			if c.R.Intn(100) >= linear {
				p = r.nodes[c.R.Intn(len(r.nodes))]
			}
			r.child(g, p, step)
		}
		k := len(r.nodes)
		if k > 12 {
			k = 12
		}
		dl := append([]*node{}, r.nodes[:k]...)
		rest := append([]*node{}, r.nodes[k:]...)
		if c.R.Intn(2) == 0 {
			c.R.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		}
		dl = append(dl, rest...)
		for i := c.R.Intn(5); i > 0; i-- {
			dl = append(dl, r.nodes[c.R.Intn(len(r.nodes))])
		}
		complete := c.R.Intn(3)
		for _, n := range dl {
			r.deliver(n, complete == 0 || (complete == 1 && c.R.Intn(2) == 0))
			if converge {
				r.converged(nil)
			}
			if c.Bad() {
				break
			}
		}
		r.close()
		c.Distinct("empty", r.fp)
	})
}

// flatCase: weights that do not order the blocks (all equal, or zero).
func flatCase(c *core.C, converge bool) {
	bubble(c, func() {
		g := core.NewGen(c.R, uint64(c.Rnd))
		st := startBlock(g, c.R)
		st.Weight = big.NewInt(int64(c.R.Intn(2) * 7))
		r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: 128, TrackedPrefixes: core.All})
		r.start = st
		r.tree(g, 2+c.R.Intn(14), c.R.Intn(4), 1, []int{0, 60, 90}[c.R.Intn(3)])
		for _, n := range r.nodes {
			n.b.Weight = st.Weight
		}
		for _, n := range r.deliveries(c.R.Intn(5), c.R.Intn(6)) {
			r.deliver(n, c.R.Intn(2) == 0)
			if converge {
				r.converged(nil)
			}
			if c.Bad() {
				break
			}
		}
		r.close()
		c.Distinct("flat", r.fp)
	})
}

func forks(run *core.Run, converge bool) {
	run.Cases("empty", run.Pick(3000, 30000), func(c *core.C) { emptyCase(c, converge) })
	run.Cases("flat", run.Pick(3000, 30000), func(c *core.C) { flatCase(c, converge) })
	run.Cases("late", run.Pick(2000, 40000), func(c *core.C) { lateCase(c, converge) })
	run.Cases("forks", run.Pick(16000, 300000), func(c *core.C) { forkCase(c, converge) })
}
