//go:build go1.21

package dl

import (
	"math/big"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

func init() {
	registry["C18"] = c18
}

// jitter perturbs the schedule.
func jitter(R *rand.Rand) {
	switch R.Intn(8) {
	case 0:
		runtime.Gosched()
	case 1:
		for i := R.Intn(2000); i > 0; i-- {
			_ = i
		}
	case 2:
		time.Sleep(time.Duration(R.Intn(3)) * time.Microsecond)
	}
}

// C18: concurrent use of one consumer. Built with the race detector.
func c18(run *core.Run) {
	run.Cases("rewinds", run.Pick(400, 8000), c18rewinds)
	run.Cases("orderer", run.Pick(700, 12000), func(c *core.C) {
		c18orderer(c) // real time: goroutines queue for locks, which stops a bubble's clock
	})
}

// c18rewinds: reorg markers come while others deliver blocks, subscribe and
// ask; at the end one more marker and the chain once more, undisturbed.
func c18rewinds(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	st := startBlock(g, R)
	r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: 64, TrackedPrefixes: core.All})
	r.start = st
	r.manual = true
	r.tree(g, 4+R.Intn(10), R.Intn(4), 3, 80)
	var p *node
	chain := []*node{}
	for i := 4 + R.Intn(6); i > 0; i-- { // each heavier than all of the above
		p = r.child(g, p, 3)
		p.b.Weight = new(big.Int).Add(p.b.Weight, big.NewInt(1000))
		chain = append(chain, p)
	}
	stop := make(chan struct{})
	var aux, wg sync.WaitGroup
	notices := 0
	rch := make(chan map[int64]types.Hash, R.Intn(3))
	r.omp.SubscribeReorg(rch)
	pbs := make(chan *delivery.PendingBatch, R.Intn(3))
	r.omp.Subscribe(pbs)
	upd := make(chan *delivery.ChainUpdate, R.Intn(3))
	r.omp.Subscribe(upd)
	var mu sync.Mutex
	var log []types.Hash
	aux.Add(1)
	go func() {
		defer aux.Done()
		for {
			select {
			case <-rch:
				mu.Lock()
				notices++
				mu.Unlock()
			case pb := <-pbs:
				r.omp.WhyNotReady(pb.Hash)
			case u := <-upd:
				mu.Lock()
				for _, pb := range u.Added() {
					log = append(log, pb.Hash)
				}
				mu.Unlock()
				u.Done()
			case <-stop:
				return
			}
		}
	}()
	markers := 0
	for i := 2 + R.Intn(2); i > 0; i-- {
		wg.Add(2)
		go func(R *rand.Rand) {
			defer wg.Done()
			for _, k := range R.Perm(len(r.nodes)) {
				n := r.nodes[k]
				if R.Intn(3) == 0 {
					r.omp.ProcessCompleteBatch(&delivery.PendingBatch{Number: n.b.Number, Hash: n.b.Hash, ParentHash: n.b.Parent, Weight: n.b.Weight, Values: n.b.Updates, Deletes: map[string]struct{}{}})
				} else if err := r.omp.ProcessMessage(headerMsg(n.b)); err != nil {
					c.Violate("process-error", "%v", err)
				}
				r.omp.WhyNotReady(n.b.Hash)
				jitter(R)
			}
		}(rand.New(rand.NewSource(R.Int63())))
		nm := 1 + R.Intn(4)
		markers += nm
		go func(R *rand.Rand, nm int) {
			defer wg.Done()
			for ; nm > 0; nm-- {
				n := r.nodes[R.Intn(len(r.nodes))]
				ch := make(chan map[int64]types.Hash, 1)
				sub := r.omp.SubscribeReorg(ch)
				var err error
				if R.Intn(2) == 0 {
					err = r.omp.ProcessReorg(n.b.Number, n.b.Hash)
				} else {
					err = r.omp.ProcessMessage(&core.Msg{K: core.Key(core.TReorg, n.b.Hash[:]), V: core.PutLong(nil, n.b.Number), Src: "t"})
				}
				if err != nil {
					c.Violate("process-error", "%v", err)
				}
				jitter(R)
				sub.Unsubscribe()
			}
		}(rand.New(rand.NewSource(R.Int63())), nm)
	}
	wg.Wait()
	idle := func(ok func() bool) bool {
		for t := time.Now(); time.Since(t) < 20*time.Second; time.Sleep(100 * time.Microsecond) {
			mu.Lock()
			b := ok()
			mu.Unlock()
			if b {
				return true
			}
		}
		return false
	}
	if err := r.omp.ProcessReorg(st.Number, st.Hash); err != nil {
		c.Violate("process-error", "%v", err)
	}
	markers++
	if !idle(func() bool { return notices >= markers }) {
		c.Violate("reorg-notice", "a subscriber heard %d of %d markers", notices, markers)
	}
	mu.Lock()
	log = nil
	mu.Unlock()
	for _, n := range chain {
		if err := r.omp.ProcessMessage(headerMsg(n.b)); err != nil {
			c.Violate("process-error", "%v", err)
		}
	}
	last := chain[len(chain)-1].b.Hash
	done := func() bool { return len(log) > 0 && log[len(log)-1] == last }
	if !idle(done) {
		c.Violate("rewind-stuck", "after a marker to the start the chain was delivered again but not applied: %d of %d blocks", len(log), len(chain))
	}
	r.omp.Close()
	close(stop)
	aux.Wait()
	if notices != markers {
		c.Violate("reorg-notice", "a subscriber heard %d of %d markers", notices, markers)
	}
	if !c.Bad() && len(log) != len(chain) {
		c.Violate("rewind-content", "%d blocks applied of a chain of %d", len(log), len(chain))
	}
	c.Count("markers", markers)
	c.Distinct("rewinds", c.I)
}

func c18orderer(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	st := startBlock(g, R)
	cfg := &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: 128, TrackedPrefixes: core.All}
	r := newOmp(c, cfg)
	r.start = st
	r.tree(g, 3+R.Intn(10), R.Intn(4), 3, []int{0, 50, 80}[R.Intn(3)])
	msgs := map[*node][]*core.Msg{}
	schema := g.Schema("d")
	p, err := delivery.NewProducer(schema.Default, schema.Topics)
	if err != nil {
		c.Inconclusive("schema refused")
		return
	}
	for _, n := range r.nodes {
		g.Fill(n.b, 4)
		b, err := core.Produce(p, n.b)
		if err != nil { // clashes between generated keys and prefixes
			n.b.Updates, n.b.Deletes, n.b.Subs = map[string][]byte{"k": {1}}, nil, nil
			msgs[n] = []*core.Msg{headerMsg(n.b)}
			continue
		}
		msgs[n] = b.Flatten(map[string]int64{})
	}
	stop := make(chan struct{})
	var wg, aux sync.WaitGroup
	var mu sync.Mutex
	applied := map[types.Hash]bool{}
	emitted := map[types.Hash]int{}

	// unordered blocks
	pbs := make(chan *delivery.PendingBatch, R.Intn(2)*16)
	r.omp.Subscribe(pbs)
	aux.Add(1)
	go func() {
		defer aux.Done()
		for {
			select {
			case pb := <-pbs:
				mu.Lock()
				emitted[pb.Hash]++
				mu.Unlock()
			case <-stop:
				return
			}
		}
	}()
	// two applications; each applies and calls Done on the same batches
	logs := make([][]*delivery.ChainUpdate, 2)
	for i := 0; i < 2; i++ {
		ch := make(chan *delivery.ChainUpdate, R.Intn(3))
		r.omp.Subscribe(ch)
		aux.Add(1)
		go func(i int) {
			defer aux.Done()
			for {
				select {
				case u := <-ch:
					logs[i] = append(logs[i], u)
					mu.Lock()
					for _, pb := range u.Added() {
						applied[pb.Hash] = true
					}
					for _, pb := range u.Removed() {
						applied[pb.Hash] = true
					}
					mu.Unlock()
					for _, pb := range u.Added() {
						r.omp.WhyNotReady(pb.Hash)
					}
					u.Done()
				case <-stop:
					return
				}
			}
		}(i)
	}
	anns := make(chan *delivery.Waiter, 4096)
	r.omp.Subscribe(anns)
	wt := waiter.NewOmpWaiter(r.omp)
	var busy sync.WaitGroup
	// pollers
	for i := 0; i < 2; i++ {
		busy.Add(1)
		go func(R *rand.Rand) {
			defer busy.Done()
			for k := 0; k < 60; k++ {
				r.omp.WhyNotReady(r.nodes[R.Intn(len(r.nodes))].b.Hash)
				c.Count("polls", 1)
				jitter(R)
			}
		}(rand.New(rand.NewSource(R.Int63())))
	}
	// waits
	for i := 0; i < 3; i++ {
		busy.Add(1)
		go func(R *rand.Rand) {
			defer busy.Done()
			for k := 0; k < 6; k++ {
				n := r.nodes[R.Intn(len(r.nodes))]
				if R.Intn(2) == 0 {
					if wt.WaitForHashResult(n.b.Hash, time.Duration(R.Intn(3000))*time.Microsecond) == waiter.Success {
						c.Count("waits_ok", 1)
						mu.Lock()
						if !applied[n.b.Hash] {
							c.Violate("false-success", "wait for %v succeeded although it was not applied", n)
						}
						mu.Unlock()
					}
				} else {
					wt.WaitForNumber(n.b.Number, time.Duration(R.Intn(3000))*time.Microsecond)
				}
				jitter(R)
			}
		}(rand.New(rand.NewSource(R.Int63())))
	}
	// subscribers that come and go
	for i := 0; i < 2; i++ {
		busy.Add(1)
		go func(R *rand.Rand) {
			defer busy.Done()
			for k := 0; k < 4; k++ {
				drain := func(s types.Subscription, recv func() bool) {
					for j := R.Intn(4); j > 0; j-- {
						recv()
						jitter(R)
					}
					s.Unsubscribe()
					c.Count("resubscriptions", 1)
				}
				switch R.Intn(4) {
				case 0:
					ch := make(chan *delivery.ChainUpdate, R.Intn(2))
					drain(r.omp.Subscribe(ch), func() bool {
						select {
						case <-ch:
						case <-time.After(time.Microsecond):
						}
						return true
					})
				case 1:
					ch := make(chan *delivery.PendingBatch, R.Intn(2))
					drain(r.omp.Subscribe(ch), func() bool {
						select {
						case <-ch:
						case <-time.After(time.Microsecond):
						}
						return true
					})
				case 2:
					ch := make(chan *delivery.Waiter, R.Intn(2))
					drain(r.omp.Subscribe(ch), func() bool {
						select {
						case <-ch:
						case <-time.After(time.Microsecond):
						}
						return true
					})
				case 3:
					ch := make(chan map[int64]types.Hash, R.Intn(2))
					drain(r.omp.SubscribeReorg(ch), func() bool {
						select {
						case <-ch:
						case <-time.After(time.Microsecond):
						}
						return true
					})
				}
			}
		}(rand.New(rand.NewSource(R.Int63())))
	}
	// producers
	np := 2 + R.Intn(3)
	for i := 0; i < np; i++ {
		wg.Add(1)
		go func(R *rand.Rand, mode int) {
			defer wg.Done()
			order := append([]*node{}, r.nodes...)
			if mode == 0 {
				R.Shuffle(len(order), func(a, b int) { order[a], order[b] = order[b], order[a] })
			}
			for _, n := range order {
				ms := append([]*core.Msg{}, msgs[n]...)
				if mode != 2 {
					R.Shuffle(len(ms), func(a, b int) { ms[a], ms[b] = ms[b], ms[a] })
				}
				if len(n.b.Subs) == 0 && R.Intn(4) == 0 {
					vals, dels := n.b.Want(schema, core.All)
					r.omp.ProcessCompleteBatch(&delivery.PendingBatch{Number: n.b.Number, Hash: n.b.Hash, ParentHash: n.b.Parent, Weight: n.b.Weight, Values: vals, Deletes: dels})
				}
				for _, m := range ms {
					if err := r.omp.ProcessMessage(m); err != nil {
						c.Violate("process-error", "ProcessMessage: %v", err)
					}
					c.Count("messages", 1)
					jitter(R)
				}
			}
		}(rand.New(rand.NewSource(R.Int63())), R.Intn(3))
	}
	wg.Wait()
	busy.Wait()
	// everything is handed over: wait for the orderer to work through it, then
	// for it to go idle
	for _, n := range r.nodes {
		n.got = true
	}
	best := r.best(nil)
	for t := time.Now(); time.Since(t) < 20*time.Second; time.Sleep(200 * time.Microsecond) {
		mu.Lock()
		ok := applied[best.b.Hash]
		for _, n := range r.nodes { // any of equal weight
			ok = ok || applied[n.b.Hash] && n.b.Weight.Cmp(best.b.Weight) == 0
		}
		mu.Unlock()
		if ok {
			break
		}
	}
	r.omp.Close()
	close(stop)
	aux.Wait()
	for _, n := range r.nodes {
		if emitted[n.b.Hash] != 1 {
			c.Violate("emitted-count", "%v was emitted %d times by %d concurrent producers", n, emitted[n.b.Hash], np)
		}
	}
	if len(logs[0]) != len(logs[1]) {
		c.Violate("subscribers-differ", "one subscriber saw %d updates, the other %d", len(logs[0]), len(logs[1]))
	} else {
		for i := range logs[0] {
			if logs[0][i] != logs[1][i] {
				c.Violate("subscribers-differ", "update %d differs", i)
			}
		}
	}
	r.manual = true
	for _, n := range r.nodes {
		n.b.Updates, _ = n.b.Want(schema, core.All)
	}
	h := []interface{}{}
	for _, u := range logs[0] {
		r.apply(u)
		for _, pb := range u.Added() {
			h = append(h, r.name(pb.Hash))
		}
	}
	r.converged(nil)
	c.Count("blocks", len(r.nodes))
	c.Distinct(h...)
	c.Distinct(c.Suite, c.I)
	c.Sample("%d blocks by %d concurrent producers, %d updates", len(r.nodes), np, len(logs[0]))
	wt.Stop()
	for len(anns) > 0 { // blocks never applied keep their waiters: release them
		w := <-anns
		select {
		case <-w.WaitCh:
		default:
			close(w.WaitCh)
		}
	}
}
