//go:build go1.21

package dl

import (
	"fmt"
	"sync"
	"testing/synctest"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/waiter"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

func init() { registry["C12"] = c12 }

// waitCall is one recorded call and return on the waiter.
type waitCall struct {
	byNum   bool
	plain   bool // the variant without a result
	hash    types.Hash
	num     int64
	timeout time.Duration
	call    time.Duration
	ret     time.Duration
	res     waiter.WaitResult
	open    bool
}

func (w waitCall) String() string {
	s := fmt.Sprintf("hash %x", w.hash[24:])
	if w.byNum {
		s = fmt.Sprintf("number %d", w.num)
	}
	return fmt.Sprintf("wait for %s called at %v timeout %v returned %v at %v", s, w.call, w.timeout, map[waiter.WaitResult]string{waiter.Success: "Success", waiter.Timeout: "Timeout", waiter.NotFound: "NotFound"}[w.res], w.ret)
}

type waitRig struct {
	c     *core.C
	t0    time.Time
	mu    sync.Mutex
	ann   map[types.Hash]time.Duration
	done  map[types.Hash]time.Duration
	num   map[int64][]types.Hash
	calls []*waitCall
}

func (w *waitRig) now() time.Duration { return time.Since(w.t0) }

const retain = 60 * time.Second

// check is the offline oracle over the recorded history.
func (w *waitRig) check(call *waitCall) {
	c := w.c
	if call.open {
		c.Violate("waiter-stuck", "%v: never returned", *call)
		return
	}
	deadline := call.call + call.timeout
	hashes := []types.Hash{call.hash}
	if call.byNum {
		hashes = w.num[call.num]
	}
	announced, doneAt, stale := time.Duration(-1), time.Duration(-1), false
	for _, h := range hashes {
		if a, ok := w.ann[h]; ok && (announced < 0 || a < announced) {
			announced = a
		}
		if d, ok := w.done[h]; ok && (doneAt < 0 || d < doneAt) {
			doneAt = d
		}
	}
	// what the waiter may have forgotten by the time of the call
	for _, h := range hashes {
		if d, ok := w.done[h]; ok && call.call >= d+retain {
			stale = true
		}
	}
	if !call.byNum {
		if b := w.numOf(call.hash); b >= 0 {
			for _, h := range w.num[b] { // a sibling was applied: this hash is kept for a while only
				if d, ok := w.done[h]; ok {
					from := d
					if a := w.ann[call.hash]; a > from {
						from = a
					}
					if call.call >= from+retain {
						stale = true
					}
				}
			}
		}
	}
	known := announced >= 0 && announced <= call.call
	if call.ret < call.call || call.ret > deadline {
		c.Violate("waiter-late", "%v", *call)
	}
	if call.plain { // no result: only that it returned at the right moment
		if known && !stale {
			want := deadline
			if doneAt >= 0 && doneAt < deadline {
				want = doneAt
				if want < call.call {
					want = call.call
				}
			}
			if call.ret != want {
				c.Violate("waiter-late", "%v, expected to return at %v", *call, want)
			}
		}
		return
	}
	switch call.res {
	case waiter.Success:
		if doneAt < 0 || doneAt > call.ret {
			c.Violate("false-success", "%v, but it was not applied by then (applied at %v)", *call, doneAt)
		} else if want := max(call.call, doneAt); call.ret != want && !stale {
			c.Violate("waiter-late", "%v, applied at %v", *call, doneAt)
		}
		c.Count("success", 1)
	case waiter.Timeout:
		if call.ret != deadline {
			c.Violate("early-timeout", "%v", *call)
		}
		if !known {
			c.Violate("timeout-unknown", "%v, but nothing announced it", *call)
		}
		if doneAt >= 0 && doneAt < deadline && !stale {
			c.Violate("missed", "%v, although it was applied at %v", *call, doneAt)
		}
		c.Count("timeout", 1)
	case waiter.NotFound:
		if call.ret != call.call {
			c.Violate("waiter-late", "%v", *call)
		}
		if known && !stale {
			c.Violate("not-found", "%v, although it was announced at %v", *call, announced)
		}
		c.Count("not_found", 1)
	default:
		c.Violate("bad-result", "%v", *call)
	}
}

func (w *waitRig) numOf(h types.Hash) int64 {
	for n, hs := range w.num {
		for _, x := range hs {
			if x == h {
				return n
			}
		}
	}
	return -1
}

func c12(run *core.Run) {
	run.Cases("waiter", run.Pick(4000, 80000), func(c *core.C) { bubble(c, func() { waitCase(c) }) })
	run.Cases("brief", run.Pick(1000, 20000), func(c *core.C) { bubble(c, func() { briefCase(c) }) })
}

// briefCase: blocks of a long-lived waiter are known from their announcement
// until a minute after they were applied, and forgotten then.
func briefCase(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	st := startBlock(g, R)
	r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: 128, TrackedPrefixes: core.All})
	r.start = st
	r.manual = true
	r.tree(g, 5+R.Intn(60), 0, 3, []int{80, 95, 100}[R.Intn(3)])
	t0 := time.Now()
	wt := waiter.NewOmpWaiter(r.omp)
	anns := make(chan *delivery.Waiter, 4096)
	sub := r.omp.Subscribe(anns)
	ann, done := map[types.Hash]time.Duration{}, map[types.Hash]time.Duration{}
	num := map[int64][]types.Hash{}
	var order []*node
	pace := []time.Duration{100 * time.Millisecond, 3 * time.Second, 20 * time.Second}[R.Intn(3)]
	probe := func() {
		if len(order) == 0 {
			return
		}
		n := order[R.Intn(len(order))]
		now := time.Since(t0)
		long := func(h types.Hash) bool { // applied, and forgotten
			d, ok := done[h]
			return ok && now > d+retain
		}
		// the waiter is through with a number a minute after the first block of
		// it was applied, and with that block's siblings a minute after both
		first, last := time.Duration(-1), time.Duration(0)
		for _, h := range num[n.b.Number] {
			if d, ok := done[h]; ok && (first < 0 || d < first) {
				first = d
			}
			last = max(last, ann[h])
		}
		var res waiter.WaitResult
		var know, forgot bool
		byNum := R.Intn(2) == 0
		if byNum {
			know = first < 0 || now < first+retain
			forgot = first >= 0 && now > first+retain && last <= first+retain
			res = wt.WaitForNumberResult(n.b.Number, 1)
		} else {
			know = first < 0 || now < first+retain
			forgot = long(n.b.Hash) || first >= 0 && ann[n.b.Hash] <= first+retain && now > max(first, ann[n.b.Hash])+retain
			res = wt.WaitForHashResult(n.b.Hash, 1)
		}
		c.Tracef("%v wait (by number %v) for %v %x: %d", now, byNum, n, n.b.Hash[24:], res)
		switch {
		case know && res == waiter.NotFound:
			c.Violate("not-found", "%v (number %d, by number %v): NotFound at %v, announced at %v, applied at %v", n, n.b.Number, byNum, now, ann[n.b.Hash], first)
		case forgot && res != waiter.NotFound:
			c.Violate("not-forgotten", "%v (number %d, by number %v): still known at %v, applied at %v", n, n.b.Number, byNum, now, first)
		}
		if know {
			c.Count("known", 1)
		}
		if forgot {
			c.Count("forgotten", 1)
		}
	}
	for _, n := range r.deliveries(0, 0) {
		time.Sleep(time.Duration(1 + R.Int63n(int64(pace))))
		ann[n.b.Hash] = time.Since(t0)
		num[n.b.Number] = append(num[n.b.Number], n.b.Hash)
		order = append(order, n)
		r.deliver(n, R.Intn(2) == 0)
		for _, u := range r.lastUpd {
			at := time.Since(t0)
			for _, pb := range append(append([]*delivery.PendingBatch{}, u.Added()...), u.Removed()...) {
				if _, ok := done[pb.Hash]; !ok {
					done[pb.Hash] = at
				}
			}
			u.Done()
		}
		synctest.Wait()
		for i := R.Intn(3); i > 0; i-- {
			probe()
		}
		if c.Bad() {
			break
		}
	}
	time.Sleep(retain + time.Second)
	synctest.Wait()
	for range order {
		probe()
	}
	c.Count("brief_blocks", len(order))
	c.Distinct("brief", r.fp, len(order), pace)
	wt.Stop()
	sub.Unsubscribe()
	for len(anns) > 0 { // what the waiter's own goroutines wait for
		x := <-anns
		select {
		case <-x.WaitCh:
		default:
			close(x.WaitCh)
		}
	}
	time.Sleep(2 * retain)
	r.close()
}

func waitCase(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	st := startBlock(g, R)
	r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: 128, TrackedPrefixes: core.All})
	r.start = st
	r.manual = true
	r.tree(g, 2+R.Intn(10), R.Intn(4), 3, []int{0, 50, 80, 95}[R.Intn(4)])
	w := &waitRig{c: c, t0: time.Now(), ann: map[types.Hash]time.Duration{}, done: map[types.Hash]time.Duration{}, num: map[int64][]types.Hash{}}
	for _, n := range r.nodes {
		w.num[n.b.Number] = append(w.num[n.b.Number], n.b.Hash)
	}
	var wts []waiter.Waiter
	for i := 1 + R.Intn(2); i > 0; i-- {
		wts = append(wts, waiter.NewOmpWaiter(r.omp))
	}
	anns := make(chan *delivery.Waiter, 4096)
	r.omp.Subscribe(anns)
	stopAt := len(wts) // index of a waiter stopped early
	if len(wts) > 1 && R.Intn(3) == 0 {
		stopAt = 1
	}
	ns := func(limit time.Duration) time.Duration { return time.Duration(1 + R.Int63n(int64(limit))) }
	var wg sync.WaitGroup
	apply := func(u *delivery.ChainUpdate, after time.Duration) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(after)
			at := w.now()
			w.mu.Lock()
			for _, pb := range append(append([]*delivery.PendingBatch{}, u.Added()...), u.Removed()...) {
				if _, ok := w.done[pb.Hash]; !ok {
					w.done[pb.Hash] = at
				}
			}
			w.mu.Unlock()
			u.Done()
		}()
	}
	queue := r.deliveries(R.Intn(5), R.Intn(4))
	type half struct{ n *node }
	var halves []half
	unit := []time.Duration{time.Second, 5 * time.Second, 30 * time.Second}[R.Intn(3)]
	slow := R.Intn(3)
	announce := func(n *node) {
		w.mu.Lock()
		if _, ok := w.ann[n.b.Hash]; !ok {
			w.ann[n.b.Hash] = w.now()
		}
		w.mu.Unlock()
	}
	emitted := func() {
		for _, u := range r.lastUpd {
			d := ns(unit)
			if slow == 1 {
				d = ns(10 * unit)
			}
			if R.Intn(8) == 0 {
				continue // never applied
			}
			apply(u, d)
		}
	}
	newCall := func(wi waiter.Waiter) {
		call := &waitCall{byNum: R.Intn(2) == 0, timeout: ns(3 * unit), open: true, plain: R.Intn(5) == 0}
		n := r.nodes[R.Intn(len(r.nodes))]
		call.hash, call.num = n.b.Hash, n.b.Number
		if R.Intn(8) == 0 {
			call.hash, call.num = g.NewHash('U'), st.Number+1000
		}
		w.calls = append(w.calls, call)
		wg.Add(1)
		go func() {
			defer wg.Done()
			call.call = w.now()
			switch {
			case call.plain && call.byNum:
				wi.WaitForNumber(call.num, call.timeout)
			case call.plain:
				wi.WaitForHash(call.hash, call.timeout)
			case call.byNum:
				call.res = wi.WaitForNumberResult(call.num, call.timeout)
			default:
				call.res = wi.WaitForHashResult(call.hash, call.timeout)
			}
			call.ret = w.now()
			call.open = false
		}()
	}
	idle := 3 + R.Intn(12)
	for len(queue) > 0 || len(halves) > 0 || idle > 0 {
		time.Sleep(ns(unit))
		switch k := R.Intn(10); {
		case k < 3 && len(queue) > 0:
			n := queue[0]
			queue = queue[1:]
			announce(n)
			if R.Intn(3) == 0 && !n.got {
				// only the header: the rest follows later
				sb := &core.SpecBatch{Num: n.b.Number, Weight: n.b.Weight.Bytes(), Parent: n.b.Parent, Updates: map[string]core.SpecUpdate{"k": {Count: 1}}}
				c.Tracef("%v header of %v (%x)", w.now(), n, n.b.Hash[24:])
				if err := r.omp.ProcessMessage(&core.Msg{K: core.Key(core.TBatch, n.b.Hash[:]), V: sb.Encode(nil), Src: "t"}); err != nil {
					c.Violate("process-error", "%v", err)
				}
				halves = append(halves, half{n})
				synctest.Wait()
			} else {
				c.Tracef("%v block %x num %d", w.now(), n.b.Hash[24:], n.b.Number)
				r.deliver(n, R.Intn(2) == 0)
				emitted()
			}
		case k == 3 && len(halves) > 0:
			i := R.Intn(len(halves))
			n := halves[i].n
			halves = append(halves[:i], halves[i+1:]...)
			c.Tracef("%v rest of %v", w.now(), n)
			n.got = true
			if R.Intn(3) == 0 { // from another source, all at once
				r.omp.ProcessCompleteBatch(&delivery.PendingBatch{Number: n.b.Number, Hash: n.b.Hash, ParentHash: n.b.Parent, Weight: n.b.Weight, Values: n.b.Updates, Deletes: map[string]struct{}{}})
			}
			if err := r.omp.ProcessMessage(&core.Msg{K: core.Key(core.TBatchMsg, n.b.Hash[:], []byte("k")), V: n.b.Updates["k"], Src: "t"}); err != nil {
				c.Violate("process-error", "%v", err)
			}
			synctest.Wait()
			r.drain()
			emitted()
		case k == 4 && stopAt < len(wts) && R.Intn(3) == 0:
			wts[stopAt].Stop()
			wts = wts[:stopAt]
		default:
			idle--
			newCall(wts[R.Intn(len(wts))])
			synctest.Wait()
		}
		if c.Bad() {
			break
		}
	}
	wg.Wait()
	time.Sleep(4 * unit)
	synctest.Wait()
	for _, call := range w.calls {
		c.Tracef("%v", *call)
	}
	h := fmt.Sprint(r.fp)
	for _, call := range w.calls {
		w.check(call)
		h += fmt.Sprint(call.res, call.byNum, call.call)
	}
	c.Count("waits", len(w.calls))
	c.Distinct(h)
	c.Sample("%d blocks, %d waits, %d applied", len(r.nodes), len(w.calls), len(w.done))
	// release what the waiters' own goroutines wait for
	for _, wi := range wts {
		wi.Stop()
	}
	synctest.Wait()
	for {
		select {
		case x := <-anns:
			select {
			case <-x.WaitCh:
			default:
				close(x.WaitCh)
			}
			continue
		default:
		}
		break
	}
	time.Sleep(2 * retain)
	r.close()
}
