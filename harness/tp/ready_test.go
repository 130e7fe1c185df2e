//go:build go1.21

package tp

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

func init() {
	registry["C29"] = func(r *core.Run) {
		r.Cases("ready", r.Pick(240, 6000), c29)
		r.Cases("ws", r.Pick(240, 6000), c29ws)
	}
	registry["C25"] = func(r *core.Run) {
		r.Cases("kafka", r.Pick(400, 8000), c25kafka)
		r.Cases("ws", r.Pick(500, 10000), c25ws)
	}
}

func hasClosed(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

// c29: a consumer is ready once everything that was on the feed when it
// started has been handed to its subscribers, and not before.
func c29(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(3))
	s := newSchema(c, g)
	var held sync.Map // partitions that serve nothing for now
	slow := R.Intn(3) == 0
	h := &fakekafka.Hooks{}
	if slow {
		h = trickle(R)
	}
	serve := h.Fetch
	h.Fetch = func(t string, p int32) fakekafka.Action {
		var a fakekafka.Action
		if serve != nil {
			a = serve(t, p)
		}
		if v, ok := held.Load(source(t, int(p))); ok {
			// after its first so many messages
			if a.Hold = cl.Topic(t).Served(int(p)) >= v.(int64); !a.Hold {
				a.Batches = 1
			}
		}
		return a
	}
	mkTopics(cl, s, R, h)
	defer retire(cl, s)
	f := newFeed(c, cl, s)
	// some partitions had messages that expired
	for _, t := range s.AllTopics() {
		for p := 0; p < cl.Parts(t); p++ {
			if R.Intn(4) == 0 {
				n := 1 + R.Intn(30)
				for i := 0; i < n; i++ {
					cl.Append(t, p, []byte{core.TPing, byte(i)}, nil, 0)
				}
				cl.Trim(t, p, cl.Start(t, p)+int64(n-R.Intn(2)*R.Intn(n)))
			}
		}
	}
	most := 4
	if slow { // a record at a time takes long enough
		most = 3
	}
	w := newWorld(c, g, s, []int{0, 3, 30, 120}[R.Intn(most)], []int{0, 20}[R.Intn(2)], []int{0, 4}[R.Intn(2)])
	n := len(w.blocks)
	f.blocks(w.blocks, R, []int{0, 10}[R.Intn(2)])
	backlog := hwms(cl, s)
	cfg := w.cfg(128)
	cs := consumer(c, cl, w, "", int64(-R.Intn(2)), cfg)
	// how many of the blocks have been handed over, whole
	var got atomic.Int64
	pbs := make(chan *delivery.PendingBatch)
	sub := cs.Subscribe(pbs)
	stop := make(chan struct{})
	nap := time.Duration(R.Intn(3)*R.Intn(10)) * time.Millisecond
	stall := int64(-1)
	if R.Intn(4) == 0 && n > 0 {
		stall = int64(R.Intn(n))
	}
	go func() {
		for {
			select {
			case <-pbs:
				k := got.Add(1)
				time.Sleep(nap)
				if k == stall+1 {
					time.Sleep(1500 * time.Millisecond)
				}
			case <-stop:
				sub.Unsubscribe()
				return
			}
		}
	}()
	a := newApp(c, w, "app", cfg)
	a.attach(cs, 200)
	var parts []string
	for k, v := range backlog {
		i := strings.LastIndex(k, ":")
		if v > 0 {
			var p int
			fmt.Sscan(k[i+1:], &p)
			parts = append(parts, k)
		}
	}
	behind := func() string {
		for k, v := range backlog {
			i := strings.LastIndex(k, ":")
			var p int
			fmt.Sscan(k[i+1:], &p)
			t := cl.Topic(k[:i])
			if t.Served(p) < v && !t.Empty(p) {
				return k
			}
		}
		return ""
	}
	holding := ""
	if R.Intn(2) == 0 && len(parts) > 0 {
		holding = parts[R.Intn(len(parts))]
		i := strings.LastIndex(holding, ":")
		var p int
		fmt.Sscan(holding[i+1:], &p)
		from := int64(0)
		if left := backlog[holding] - cl.Start(holding[:i], p); R.Intn(2) == 0 && left > 0 {
			from = cl.Start(holding[:i], p) + R.Int63n(left)
		}
		held.Store(holding, from)
	}
	isReady := cs.Ready()
	if R.Intn(2) == 0 {
		isReady = nil // asked for once started
	}
	startConsumer(c, cs)
	if isReady == nil {
		isReady = cs.Ready()
	}
	release := time.Now().Add(time.Duration(1200+R.Intn(1500)) * time.Millisecond)
	if holding != "" && R.Intn(4) == 0 {
		release = release.Add(5 * time.Second)
	}
	begin := time.Now()
	for !hasClosed(isReady) {
		if holding != "" && time.Now().After(release) {
			held.Delete(holding)
			holding = ""
		}
		if time.Since(begin) > 2*patience {
			c.Violate("never-ready", "not ready %v after starting on %d blocks of backlog (%s, handed out: all but %q)", 2*patience, n, cs.WhyNotReady(w.heaviest().Hash), behind())
			break
		}
		time.Sleep(2 * time.Millisecond)
	}
	if hasClosed(isReady) {
		k := int(got.Load())
		if b := behind(); b != "" {
			c.Violate("early", "ready after %v while the broker still holds messages of %s that were there at the start", time.Since(begin), b)
		} else if k < n {
			c.Violate("early-processing", "ready while only %d of the %d blocks on the feed at the start were handed to a subscriber", k, n)
		}
		if !a.await(w.heaviest(), patience) {
			c.Violate("not-converged", "ready, but the head is %s, expected %s", a.nm(a.tip()), a.nm(w.heaviest().Hash))
		}
		if again := cs.Ready(); !wait(patience, func() bool { return hasClosed(again) }) {
			c.Violate("unready", "no longer ready")
		}
		c.Count("ready", 1)
		c.Max("max_ready_ms", time.Since(begin).Milliseconds())
		if os.Getenv("VERIF_LAPS") != "" && time.Since(begin) > 10*time.Second {
			fmt.Printf("SLOW %s/%d %v: blocks %d parts %d brokers %d slow %v nap %v stall %d records %d\n", c.Suite, c.I, time.Since(begin), n, len(parts), len(cl.Addrs()), slow, nap, stall, func() (x int64) {
				for _, v := range backlog {
					x += v
				}
				return
			}())
		}
	}
	a.detach()
	close(stop)
	closeConsumer(c, cs)
	c.Count("backlog_blocks", n)
	if len(parts) > 0 {
		c.Distinct(n, slow, stall, nap, fmt.Sprint(hashless(backlog)))
	}
	c.Sample("%d blocks of backlog on %d partitions, ready after %v", n, len(backlog), time.Since(begin).Round(time.Millisecond))
}

// hashless gives the counts without the names.
func hashless(m map[string]int64) map[string]int64 {
	out := map[string]int64{}
	for k, v := range m {
		out[k[strings.LastIndex(k, "-"):]] = v
	}
	return out
}

// stacks counts the goroutines with a frame of the transports or the Kafka
// client, apart from this harness's own.
func stacks(skip int) (int, string) {
	buf := make([]byte, 8<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n, sample := 0, ""
	for _, st := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(st, "cardinal-streams/v2/transports.") || strings.Contains(st, "/sarama.") || strings.Contains(st, "gorilla/websocket.") {
			if strings.Contains(st, "harness/tp.c") { // the case itself, calling
				continue
			}
			n++
			if n == skip+1 {
				sample = st
			}
		}
	}
	if len(sample) > 1500 {
		sample = sample[:1500]
	}
	return n, sample
}

// c25kafka: whatever a consumer is doing, Close returns soon, ends its
// goroutines and connections, and nothing produced later is delivered.
func c25kafka(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := clusterOf("close", 2)
	s := newSchema(c, g)
	var stuck atomic.Bool
	h := &fakekafka.Hooks{}
	serve := h.Fetch
	switch R.Intn(4) {
	case 0:
		serve = trickle(R).Fetch
	case 1:
		serve = faults(c, R, 0, 2).Fetch
	}
	odd := R.Intn(2) == 0
	h.Fetch = func(t string, p int32) fakekafka.Action {
		var a fakekafka.Action
		if serve != nil {
			a = serve(t, p)
		}
		a.Hold = stuck.Load() && (odd || p == 0)
		return a
	}
	for _, t := range s.AllTopics() {
		cl.CreateTopic(t, 1+R.Intn(4), h)
	}
	defer retire(cl, s)
	w := newWorld(c, g, s, []int{0, 5, 40, 150}[R.Intn(4)], 0, []int{0, 4}[R.Intn(2)])
	f := newFeed(c, cl, s)
	f.blocks(w.blocks, R, 10)
	var token string
	if R.Intn(3) == 0 { // a position past the end, or expired, is refused
		t := s.AllTopics()[R.Intn(len(s.AllTopics()))]
		token = fmt.Sprintf("%s:0=%d", t, cl.HWM(t, 0)+5)
		if R.Intn(2) == 0 {
			cl.Trim(t, 0, cl.HWM(t, 0))
			token = fmt.Sprintf("%s:0=%d", t, 0)
		}
	}
	cfg := w.cfg(128)
	cs, err := transports.ResolveConsumer(cl.URLWith("none", "max.waittime=50"), s.Default, listed(R, s), []byte(token), int64(R.Intn(3)-1), cfg)
	if err != nil {
		c.Violate("consumer-error", "ResolveConsumer: %v", err)
		return
	}
	a := newApp(c, w, "app", cfg)
	reads := R.Intn(3) // 0: nobody reads the subscription, 1: somebody does, 2: nobody subscribes
	idle := make(chan *delivery.ChainUpdate)
	var sub types.Subscription
	switch reads {
	case 0:
		sub = cs.Subscribe(idle)
	case 1:
		a.attach(cs, 0)
	}
	when := R.Intn(6)
	stuck.Store(when == 2)
	started := when > 0
	what := []string{"before start", "right after start", "while partitions are held", "in the backlog", "after the backlog", "when ready"}[when]
	if started {
		var err error
		if !within(patience, func() { err = cs.Start() }) {
			c.Violate("start-stuck", "Start did not return within %v", patience)
			return
		}
		if err != nil {
			if token == "" {
				c.Violate("start-error", "Start: %v", err)
			}
			what += ", refused"
			started = false
			c.Count("starts_refused", 1)
		}
	}
	if started {
		switch when {
		case 2:
			time.Sleep(time.Duration(R.Intn(300)) * time.Millisecond)
		case 3:
			time.Sleep(time.Duration(R.Intn(60)) * time.Millisecond)
		case 4:
			if reads == 1 {
				wait(2*time.Second, func() bool { return a.tip() == w.heaviest().Hash })
			}
		case 5:
			select {
			case <-cs.Ready():
			case <-time.After(3 * time.Second): // an unread subscription holds everything up
			}
		}
	}
	c.Tracef("closing %s, subscription %d, token %q", what, reads, token)
	n := 1 + R.Intn(3)
	t0 := time.Now()
	if R.Intn(3) == 0 { // at the same time
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); cs.Close() }()
		}
		if !within(patience, wg.Wait) {
			c.Violate("close-stuck", "%d concurrent calls of Close (%s) did not return within %v", n, what, patience)
			return
		}
	} else {
		for i := 0; i < n; i++ {
			closeConsumer(c, cs)
		}
	}
	took := time.Since(t0)
	late := map[types.Hash]bool{}
	k := len(w.blocks)
	w.grow(g, 1+R.Intn(3), 0, 0)
	for _, b := range w.blocks[k:] {
		f.block(b)
		late[b.Hash] = true
	}
	var left int
	var sample string
	if sub != nil {
		// what was on its way is still delivered
		go func() {
			for {
				select {
				case <-idle:
				case <-sub.Err():
					return
				}
			}
		}()
	}
	if !wait(patience, func() bool { left, sample = stacks(0); return left == 0 }) {
		c.Violate("goroutines", "%v after Close (%s) %d goroutines are left, such as %s", patience, what, left, sample)
	}
	if !wait(patience, func() bool { return cl.Conns() == 0 }) {
		c.Violate("connections", "%v after Close (%s) %d connections to the broker are left", patience, what, cl.Conns())
	}
	if reads == 1 {
		a.detach()
		for h := range a.applied {
			if late[h] {
				c.Violate("after-close", "a block produced after Close (%s) was delivered", what)
			}
		}
	}
	if sub != nil {
		sub.Unsubscribe()
	}
	c.Count("closed_"+strings.ReplaceAll(strings.SplitN(what, ",", 2)[0], " ", "_"), 1)
	c.Max("max_close_ms", took.Milliseconds())
	c.Distinct(what, reads, n, len(w.blocks), a.updates)
	c.Sample("closed %s with %d blocks of backlog, %d updates applied, in %v", what, k, a.updates, took.Round(time.Millisecond))
}
