//go:build go1.21

package tp

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

func init() {
	registry["C13"] = func(r *core.Run) {
		r.Cases("kafka", r.Pick(600, 12000), c13kafka)
	}
}

var codecs = []string{"none", "gzip", "snappy", "lz4", "zstd", "bogus"}

// mkTopics creates the topics of a schema.
func mkTopics(cl *fakekafka.Cluster, s core.Schema, R *rand.Rand, h *fakekafka.Hooks) {
	for _, t := range s.AllTopics() {
		cl.CreateTopic(t, 1+R.Intn(4), h)
		aged(cl, t, R)
	}
}

// listed is the list of topics an application gives, in any order.
func listed(R *rand.Rand, s core.Schema) []string {
	ts := s.AllTopics()
	R.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
	return ts
}

// aged makes some topics ones that have seen many messages long ago.
func aged(cl *fakekafka.Cluster, t string, R *rand.Rand) {
	if R.Intn(6) == 0 {
		cl.SetBase(t, []int64{5, 99, 150, 1<<31 - 3, 1<<31 + 7, 1 << 33, 1 << 39}[R.Intn(7)])
	}
}

// producerURL draws a producer's options. Sarama's idempotent producer gives up
// when a write has to be retried ("message out of sequence"), so it is only
// used where writes succeed.
func producerURL(cl *fakekafka.Cluster, R *rand.Rand, idempotent bool) string {
	opts := "retry.backoff.ms=20"
	if idempotent {
		opts += "&idempotent=1&net.maxopenrequests=1"
	}
	switch k := R.Intn(5); {
	case idempotent:
	case k == 1:
		opts += "&net.maxopenrequests=1"
	case k == 2:
		opts += "&request.required.acks=1"
	}
	u := cl.URLWith(codecs[R.Intn(len(codecs))], opts)
	if R.Intn(3) == 0 {
		u = "cardinal://" + u
	}
	return u
}

func consumerURL(cl *fakekafka.Cluster, R *rand.Rand) string {
	u := cl.URLWith("none", []string{"", "fetch.default=2000&max.waittime=20", "max.waittime=20", "max.waittime=20", "max.waittime=20", "max.waittime=20", "max.waittime=50", "max.waittime=50"}[R.Intn(8)])
	if R.Intn(3) == 0 {
		u = "cardinal://" + u
	}
	return u
}

func newProducer(c *core.C, cl *fakekafka.Cluster, s core.Schema, R *rand.Rand, idempotent bool) transports.Producer {
	var p transports.Producer
	var err error
	u := producerURL(cl, R, idempotent)
	if !within(patience, func() {
		if R.Intn(2) == 0 {
			p, err = transports.ResolveProducer(u, s.Default, s.Topics)
		} else {
			p, err = transports.ResolveProducerWithResumer(u, s.Default, s.Topics, nil)
		}
	}) {
		c.Violate("producer-stuck", "creating a producer for %s did not return within %v", u, patience)
		c.Abort()
	}
	if err != nil {
		c.Violate("producer-error", "creating a producer for %s: %v", u, err)
		c.Abort()
	}
	return p
}

func startConsumer(c *core.C, cs transports.Consumer) {
	var err error
	if !within(patience, func() { err = cs.Start() }) {
		c.Violate("start-stuck", "Start did not return within %v", patience)
		c.Abort()
	}
	if err != nil {
		c.Violate("start-error", "Start: %v", err)
		c.Abort()
	}
}

func closeConsumer(c *core.C, cs transports.Consumer) {
	if !within(patience, cs.Close) {
		c.Violate("close-stuck", "Close did not return within %v", patience)
		c.Abort()
	}
}

func retire(cl *fakekafka.Cluster, s core.Schema) {
	for _, t := range s.AllTopics() {
		cl.Retire(t)
	}
}

// c13kafka: redundant producers, brokers that fail now and then, partitioned
// topics, a consumer that starts at any time: it ends up on the heaviest
// chain, with every block as it was produced.
func c13kafka(c *core.C) {
	R := c.R
	c.Lap("")
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(3))
	s := newSchema(c, g)
	np, nf := 0, 0
	idempotent := R.Intn(6) == 0
	if R.Intn(3) > 0 && !idempotent {
		np = R.Intn(8)
	}
	if R.Intn(6) == 0 {
		nf = 1 + R.Intn(2)
	}
	h := faults(c, R, np, nf)
	cl.SetDefaultHooks(h)
	if R.Intn(3) > 0 {
		mkTopics(cl, s, R, h)
	}
	defer retire(cl, s)
	w := newWorld(c, g, s, 3+R.Intn(40), []int{0, 20, 50}[R.Intn(3)], []int{0, 3, 8}[R.Intn(3)])
	if R.Intn(12) == 0 { // a big block
		b := w.blocks[R.Intn(len(w.blocks))]
		v := make([]byte, 1<<20+R.Intn(3<<20))
		R.Read(v)
		b.Updates["big"] = v
		c.Count("big_blocks", 1)
	}
	n := 1 + R.Intn(3)
	ps := make([]transports.Producer, n)
	ps[0] = newProducer(c, cl, s, R, idempotent && R.Intn(2) == 0)
	for i := 1; i < n; i++ {
		ps[i] = newProducer(c, cl, s, R, idempotent && R.Intn(2) == 0)
	}
	c.Lap("producers")
	cut := []int{0, 0, R.Intn(len(w.blocks)), len(w.blocks)}[R.Intn(4)]
	send := func(bs []*core.Block) {
		var wg sync.WaitGroup
		for i := range ps {
			wg.Add(1)
			go func(p transports.Producer, R *rand.Rand) {
				defer wg.Done()
				if R.Intn(3) == 0 {
					time.Sleep(time.Duration(R.Intn(40)) * time.Millisecond)
				}
				produceAll(c, p, shuffled(R, bs, R.Intn(2)), R, R.Intn(2) == 0, R.Intn(2) == 0)
			}(ps[i], rand.New(rand.NewSource(R.Int63())))
		}
		if !within(patience, wg.Wait) {
			c.Violate("produce-stuck", "producing %d blocks did not finish within %v", len(bs), patience)
			c.Abort()
		}
	}
	send(w.blocks[:cut])
	if cut > 0 && R.Intn(2) == 0 {
		time.Sleep(time.Duration(R.Intn(60)) * time.Millisecond)
	}
	c.Lap("sent1")
	cfg := w.cfg(128)
	cs, err := transports.ResolveConsumer(consumerURL(cl, R), s.Default, listed(R, s), nil, int64([]int{-1, 0, 1, 1000}[R.Intn(4)]), cfg)
	if err != nil {
		c.Violate("consumer-error", "ResolveConsumer: %v", err)
		return
	}
	a := newApp(c, w, "app", cfg)
	a.attach(cs, []int{0, 1, 200}[R.Intn(3)])
	startConsumer(c, cs)
	c.Lap("started")
	send(w.blocks[cut:])
	c.Lap("sent")
	goal := w.heaviest()
	if !a.await(goal, patience) {
		c.Violate("not-converged", "%v after everything was produced the head is %s, expected %s (of %d blocks): %s", patience, a.nm(a.tip()), a.nm(goal.Hash), len(w.blocks), cs.WhyNotReady(goal.Hash))
		return
	}
	if R.Intn(4) == 0 {
		select {
		case <-cs.Ready():
			c.Count("ready_seen", 1)
		case <-time.After(patience):
			c.Violate("never-ready", "the consumer has all blocks but is not ready after %v", patience)
		}
	}
	c.Lap("converged")
	a.detach()
	closeConsumer(c, cs)
	c.Lap("closed")
	c.Count("kafka_runs", 1)
	c.Count("producers", n)
	c.Max("max_blocks", int64(len(w.blocks)))
	total := int64(0)
	for _, t := range s.AllTopics() {
		total += cl.Total(t)
	}
	c.Count("records", int(total))
	c.Distinct(fmt.Sprint(len(w.blocks), cut, n, a.updates, a.reorgs, total))
	c.Sample("%d blocks, %d producers, %d brokers, %d topics, %d records, %d updates, %d reorgs", len(w.blocks), n, len(cl.Addrs()), len(s.AllTopics()), total, a.updates, a.reorgs)
}
