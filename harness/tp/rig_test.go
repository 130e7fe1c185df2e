//go:build go1.21

// Monitors over the transports, end to end: real producers and consumers talk
// to a Kafka cluster (fakekafka) or to each other over loopback connections, in
// real time. Only safety, or progress within generous limits, is judged.
package tp

import (
	"fmt"
	"math/big"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

var registry = map[string]func(*core.Run){}

func TestCheck(t *testing.T) {
	core.CaseLimit = 4 * time.Minute
	core.Main(t, registry)
}

// patience is how long progress may take before it counts as absent. What is
// waited for takes milliseconds to a few seconds.
const patience = 70 * time.Second

var (
	clmu     sync.Mutex
	clusters = map[string]*fakekafka.Cluster{}
)

// cluster gives this process's cluster of n brokers.
func cluster(n int) *fakekafka.Cluster { return clusterOf("", n) }

// clusterOf gives one that only certain suites use.
func clusterOf(who string, n int) *fakekafka.Cluster {
	clmu.Lock()
	defer clmu.Unlock()
	k := fmt.Sprint(who, n)
	if clusters[k] == nil {
		clusters[k] = fakekafka.New(n)
	}
	return clusters[k]
}

// world is a tree of blocks to be carried by a transport.
type world struct {
	start  *core.Block
	blocks []*core.Block // parents precede children
	schema core.Schema

	mu   sync.RWMutex // consumers look blocks up while more are made
	by   map[types.Hash]*core.Block
	name map[types.Hash]string
}

// get finds a block by its hash.
func (w *world) get(h types.Hash) *core.Block {
	w.mu.RLock()
	defer w.mu.RUnlock()
	return w.by[h]
}

// newSchema draws a schema whose topics are the case's own.
func newSchema(c *core.C, g *core.Gen) core.Schema {
	s := g.Schema("def")
	pre := fmt.Sprintf("%s-%d-%d-", c.Suite, c.I, c.R.Intn(1000000))
	out := core.Schema{Default: pre + "def", Topics: map[string]string{}}
	for k, t := range s.Topics {
		out.Topics[k] = pre + t
	}
	return out
}

func newWorld(c *core.C, g *core.Gen, s core.Schema, n, forks, size int) *world {
	R := c.R
	w := &world{by: map[types.Hash]*core.Block{}, name: map[types.Hash]string{}, schema: s}
	w.start = &core.Block{Number: int64(R.Intn(1000)), Hash: g.NewHash('S'), Parent: g.NewHash('G'), Weight: big.NewInt(int64(1 + R.Intn(1000)))}
	w.name[w.start.Hash] = "S"
	w.grow(g, n, forks, size)
	return w
}

// grow adds n blocks. Weights are distinct and increase along each chain.
func (w *world) grow(g *core.Gen, n, forks, size int) {
	head := w.start
	if k := len(w.blocks); k > 0 {
		head = w.heaviest()
	}
	for i := 0; i < n; i++ {
		parent := head
		if g.R.Intn(100) < forks && len(w.blocks) > 0 {
			lo := len(w.blocks) - 8
			if lo < 0 {
				lo = 0
			}
			parent = w.blocks[lo+g.R.Intn(len(w.blocks)-lo)]
		}
		b := &core.Block{Number: parent.Number + 1, Hash: g.NewHash('B'), Parent: parent.Hash}
		b.Weight = newWeight(w, g, parent)
		w.fill(g, b, size)
		w.add(b)
		if head == parent || b.Weight.Cmp(head.Weight) > 0 {
			head = b
		}
	}
}

func newWeight(w *world, g *core.Gen, parent *core.Block) *big.Int {
	return new(big.Int).Add(parent.Weight, big.NewInt(int64(100000+g.R.Intn(50)*1000+len(w.blocks))))
}

func (w *world) add(b *core.Block) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.name[b.Hash] = fmt.Sprintf("n%d", len(w.blocks))
	w.blocks = append(w.blocks, b)
	w.by[b.Hash] = b
}

// fill draws content that the schema accepts.
func (w *world) fill(g *core.Gen, b *core.Block, size int) {
	if size == 0 {
		b.Updates, b.Deletes = map[string][]byte{}, map[string]struct{}{}
		return
	}
	g.Fill(b, size)
	p, err := delivery.NewProducer(w.schema.Default, w.schema.Topics)
	if err == nil {
		_, err = core.Produce(p, b)
	}
	if err != nil { // clashes between generated keys and prefixes
		b.Updates, b.Deletes, b.Subs = map[string][]byte{"k": {1}}, map[string]struct{}{}, nil
	}
}

func (w *world) heaviest() *core.Block {
	best := w.start
	for _, b := range w.blocks {
		if b.Weight.Cmp(best.Weight) > 0 {
			best = b
		}
	}
	return best
}

func (w *world) cfg(threshold int64) *delivery.ConsumerConfig {
	return &delivery.ConsumerConfig{LastEmittedNum: w.start.Number, LastHash: w.start.Hash, LastWeight: w.start.Weight, ReorgThreshold: threshold, TrackedPrefixes: core.All}
}

// heaviestOn gives the heaviest block of the tree on a given one.
func (w *world) heaviestOn(base types.Hash) *core.Block {
	on := map[types.Hash]bool{base: true}
	best := w.start
	if base != w.start.Hash {
		best = w.by[base]
	}
	for _, b := range w.blocks {
		if on[b.Parent] {
			on[b.Hash] = true
			if b.Weight.Cmp(best.Weight) > 0 {
				best = b
			}
		}
	}
	return best
}

// shuffled gives a random order of blocks in which parents still come first
// (window 0: the order they were made in).
func shuffled(R *rand.Rand, bs []*core.Block, window int) []*core.Block {
	out := append([]*core.Block{}, bs...)
	if window == 0 {
		return out
	}
	for k := 0; k < len(out)*2; k++ {
		if len(out) < 2 {
			break
		}
		i := R.Intn(len(out) - 1)
		if out[i+1].Parent != out[i].Hash {
			out[i], out[i+1] = out[i+1], out[i]
		}
	}
	return out
}

// app is an application: it applies chain updates, and watches them.
type app struct {
	c   *core.C
	w   *world
	tag string

	mu      sync.Mutex
	known   bool
	base    types.Hash
	baseW   *big.Int
	chain   []*core.Block
	applied map[types.Hash]int
	updates int
	reorgs  int
	tokens  map[types.Hash]string
	skipC   bool // content is not ground truth's
	noDone  bool
	loose   map[types.Hash]bool // what follows these may follow anything
	onAdd   func(pb *delivery.PendingBatch)
	rewinds []rewind
	stop    chan struct{}
	done    chan struct{}
	stopped bool
}

// rewind is a reorg marker of the stream: it takes the chain back to a block,
// and shows by the first block that follows it.
type rewind struct {
	to, first types.Hash
	nth       int // how often that one was applied before
}

func newApp(c *core.C, w *world, tag string, cfg *delivery.ConsumerConfig) *app {
	return &app{c: c, w: w, tag: tag, base: cfg.LastHash, baseW: cfg.LastWeight, known: cfg.LastHash != types.Hash{},
		applied: map[types.Hash]int{}, tokens: map[types.Hash]string{}, stop: make(chan struct{}), done: make(chan struct{})}
}

// attach subscribes the application to a consumer.
func (a *app) attach(cs transports.Consumer, buf int) {
	ch := make(chan *delivery.ChainUpdate, buf)
	sub := cs.Subscribe(ch)
	go func() {
		defer close(a.done)
		defer sub.Unsubscribe()
		for {
			select {
			case u := <-ch:
				a.apply(u)
			case <-a.stop:
				return
			}
		}
	}()
}

// detach ends it: nothing is applied afterwards.
func (a *app) detach() {
	if !a.stopped {
		a.stopped = true
		close(a.stop)
	}
	<-a.done
}

func (a *app) nm(h types.Hash) string {
	a.w.mu.RLock()
	defer a.w.mu.RUnlock()
	if n, ok := a.w.name[h]; ok {
		return n
	}
	return fmt.Sprintf("?%x", h[:4])
}

func (a *app) names(pbs []*delivery.PendingBatch) string {
	s := "["
	for _, pb := range pbs {
		s += a.nm(pb.Hash) + " "
	}
	return s + "]"
}

func (a *app) tip() types.Hash {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.tipLocked()
}

func (a *app) tipLocked() types.Hash {
	if len(a.chain) == 0 {
		return a.base
	}
	return a.chain[len(a.chain)-1].Hash
}

func (a *app) tipWeight() *big.Int {
	if len(a.chain) == 0 {
		return a.baseW
	}
	return a.chain[len(a.chain)-1].Weight
}

func (a *app) apply(u *delivery.ChainUpdate) {
	a.mu.Lock()
	defer a.mu.Unlock()
	c := a.c
	add, rem := u.Added(), u.Removed()
	c.Count("updates", 1)
	c.Count("blocks_added", len(add))
	c.Count("blocks_removed", len(rem))
	a.updates++
	if len(rem) > 0 {
		a.reorgs++
		c.Count("reorgs", 1)
	}
	c.Tracef("%s: update added=%s removed=%s", a.tag, a.names(add), a.names(rem))
	if len(a.rewinds) > 0 && len(add) > 0 && add[0].Hash == a.rewinds[0].first && a.applied[add[0].Hash] == a.rewinds[0].nth {
		to := a.rewinds[0].to
		a.rewinds = a.rewinds[1:]
		for len(a.chain) > 0 && a.tipLocked() != to {
			a.chain = a.chain[:len(a.chain)-1]
		}
		if a.tipLocked() != to {
			c.Violate("rewind-unknown", "%s: the stream went back to %s, which was not applied", a.tag, a.nm(to))
		}
	}
	before := a.tipWeight()
	if len(rem) > len(a.chain) {
		c.Violate("removed-not-suffix", "%s: update removes %s, but only %d blocks are applied", a.tag, a.names(rem), len(a.chain))
		a.chain = nil
	} else {
		off := len(a.chain) - len(rem)
		for i, pb := range rem {
			if a.chain[off+i].Hash != pb.Hash {
				c.Violate("removed-not-suffix", "%s: update removes %s, which is not the end of the applied chain", a.tag, a.names(rem))
				break
			}
		}
		a.chain = a.chain[:off]
	}
	if len(add) == 0 {
		c.Violate("nothing-added", "%s: an update that adds nothing", a.tag)
	}
	for i, pb := range add {
		b := a.w.get(pb.Hash)
		if b == nil {
			c.Violate("unknown-block", "%s: update adds %x, which nobody produced", a.tag, pb.Hash[:])
			return
		}
		if pb.ParentHash != a.tipLocked() && (a.known || len(a.chain) > 0 || i > 0) && !a.loose[pb.ParentHash] {
			c.Violate("not-linked", "%s: added %s has parent %s but follows %s", a.tag, a.nm(pb.Hash), a.nm(pb.ParentHash), a.nm(a.tipLocked()))
		}
		if !a.skipC {
			if d := core.DiffBatch(pb, b, a.w.schema, core.All); d != "" {
				c.Violate("content", "%s: block %s: %s", a.tag, a.nm(pb.Hash), d)
			}
			c.Count("contents_compared", 1)
		}
		a.applied[pb.Hash]++
		a.tokens[pb.Hash] = pb.Resumption()
		a.chain = append(a.chain, b)
		if a.onAdd != nil {
			a.onAdd(pb)
		}
	}
	if len(rem) > 0 && len(add) > 0 && a.tipWeight().Cmp(before) <= 0 {
		c.Violate("reorg-not-heavier", "%s: reorg from weight %v to %v", a.tag, before, a.tipWeight())
	}
	if !a.noDone {
		u.Done()
	}
}

// await waits until a block is the head of the applied chain.
func (a *app) await(b *core.Block, limit time.Duration) bool {
	return wait(limit, func() bool { return a.tip() == b.Hash })
}

func wait(limit time.Duration, ok func() bool) bool {
	end := time.Now().Add(limit)
	for d := time.Millisecond; ; {
		if ok() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(d)
		if d < 20*time.Millisecond {
			d += time.Millisecond
		}
	}
}

func within(limit time.Duration, fn func()) bool {
	ch := make(chan struct{})
	go func() {
		defer close(ch)
		fn()
	}()
	select {
	case <-ch:
		return true
	case <-time.After(limit):
		return false
	}
}

// blockAPI is the part of a producer that carries blocks.
func addBlock(p transports.Producer, b *core.Block) error {
	return p.AddBlock(b.Number, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, b.Batches())
}

// sendSubs sends a block's batches in a random order.
func sendSubs(p transports.Producer, b *core.Block, R *rand.Rand) error {
	for _, i := range R.Perm(len(b.Subs)) {
		s := b.Subs[i]
		if err := p.SendBatch(s.ID, s.Deletes, s.Updates); err != nil {
			return err
		}
	}
	return nil
}

// produceAll hands blocks to a producer; batches may trail behind the blocks.
func produceAll(c *core.C, p transports.Producer, bs []*core.Block, R *rand.Rand, trail, pauses bool) {
	var late []*core.Block
	flush := func(n int) {
		for len(late) > n {
			i := R.Intn(len(late))
			if err := sendSubs(p, late[i], R); err != nil {
				c.Violate("send-batch", "SendBatch: %v", err)
			}
			late = append(late[:i], late[i+1:]...)
		}
	}
	for _, b := range bs {
		if err := addBlock(p, b); err != nil {
			c.Violate("add-block", "AddBlock: %v", err)
		}
		c.Count("blocks_produced", 1)
		late = append(late, b)
		if trail {
			flush(R.Intn(3))
		} else {
			flush(0)
		}
		if pauses && R.Intn(5) == 0 {
			time.Sleep(time.Duration(R.Intn(12)) * time.Millisecond)
		}
	}
	flush(0)
}
