//go:build go1.21

package tp

import (
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

func init() {
	registry["C30"] = func(r *core.Run) {
		r.Cases("together", r.Pick(160, 4000), c30together)
		r.Cases("refused", r.Pick(100, 2000), c30refused)
		r.Cases("offsets", r.Pick(60, 1000), c30offsets)
	}
}

// c30together: producers that start at the same moment find or make all topics.
func c30together(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	nb := 1 + R.Intn(5)
	cl := fakekafka.New(nb)
	defer cl.Close()
	s := newSchema(c, g)
	if R.Intn(3) == 0 {
		s.Topics["twice/"] = s.Default // a topic named more than once
	}
	defer retire(cl, s)
	had := map[string]int{}
	for _, t := range s.AllTopics() {
		if R.Intn(3) == 0 {
			had[t] = 1 + R.Intn(7)
			cl.CreateTopic(t, had[t], nil)
			for k := R.Intn(3); k > 0; k-- {
				cl.Append(t, R.Intn(had[t]), ping(byte(k)), []byte{1}, 0)
			}
		}
	}
	slow, hide := time.Duration(0), time.Duration(0)
	if R.Intn(2) == 0 {
		slow = time.Duration(R.Intn(60)) * time.Millisecond
	}
	if R.Intn(3) == 0 { // it takes a moment until a new topic has leaders
		hide = time.Duration(1+R.Intn(120)) * time.Millisecond
	}
	cl.SetCreateHook(func(string) fakekafka.Action { return fakekafka.Action{Delay: slow} }, hide)
	n := 1 + R.Intn(4)
	ps := make([]transports.Producer, n)
	errs := make([]error, n)
	stagger := make([]time.Duration, n)
	for i := range stagger {
		if R.Intn(2) == 0 {
			stagger[i] = time.Duration(R.Intn(40)) * time.Millisecond
		}
	}
	var wg sync.WaitGroup
	if !within(patience, func() {
		for i := range ps {
			i := i
			u := someURL(cl, R)
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(stagger[i])
				ps[i], errs[i] = transports.ResolveProducerWithResumer(u, s.Default, s.Topics, nil)
			}()
		}
		wg.Wait()
	}) {
		c.Violate("stuck", "%d producers on %d topics are not through after %v", n, len(s.AllTopics()), patience)
		return
	}
	for i, err := range errs {
		if err != nil || ps[i] == nil {
			c.Violate("not-started", "producer %d of %d, started together: %v (creation takes %v, leaders %v)", i, n, err, slow, hide)
		}
	}
	for _, t := range s.AllTopics() {
		reqs := cl.Creations(t)
		if k, ok := had[t]; ok {
			if len(reqs) > 0 || cl.Parts(t) != k {
				c.Violate("touched", "topic %s with %d partitions was there: %d requests to create it, %d partitions now", t, k, len(reqs), cl.Parts(t))
			}
			continue
		}
		if cl.Topic(t) == nil {
			c.Violate("missing", "topic %s was not made", t)
			continue
		}
		rep := int16(nb)
		if rep > 3 {
			rep = 3
		}
		for _, q := range reqs {
			if int(q.Partitions) != 2*nb || q.Replication != rep || q.Config["max.message.bytes"] != "10000024" || len(q.Config) != 1 {
				c.Violate("create", "with %d brokers, topic %s is created with %d partitions, replication %d, %v", nb, t, q.Partitions, q.Replication, q.Config)
			}
		}
		c.Count("topics_created", 1)
		if len(reqs) > 1 {
			c.Count("creations_contested", 1)
		}
	}
	// nothing is left of making them: what remains are the producers' clients
	if most := int64(2 * n * (nb + 1)); !wait(patience, func() bool { return cl.Conns() <= most }) {
		c.Violate("connections", "%d producers with %d topics on %d brokers have %d connections", n, len(s.AllTopics()), nb, cl.Conns())
	}
	// and all of them can be written and read
	w := newWorld(c, g, s, 1+R.Intn(6), 0, 6)
	if !c.Bad() {
		cfg := w.cfg(128)
		cs := consumer(c, cl, w, "", -1, cfg)
		a := newApp(c, w, "app", cfg)
		a.attach(cs, 10)
		startConsumer(c, cs)
		for i, b := range w.blocks {
			produceAll(c, ps[i%n], []*core.Block{b}, R, false, false)
		}
		if !a.await(w.heaviest(), patience) {
			c.Violate("not-converged", "the head is %s, expected %s", a.nm(a.tip()), a.nm(w.heaviest().Hash))
		}
		a.detach()
		closeConsumer(c, cs)
	}
	c.Distinct(nb, n, len(had), len(s.AllTopics()), slow, hide)
	c.Sample("%d brokers, %d producers, %d of %d topics there", nb, n, len(had), len(s.AllTopics()))
}

// someURL names some of the brokers of a cluster, in any order.
func someURL(cl *fakekafka.Cluster, R *rand.Rand) string {
	var as []string
	for _, i := range R.Perm(len(cl.Addrs()))[:1+R.Intn(len(cl.Addrs()))] {
		as = append(as, cl.Addrs()[i])
	}
	return []string{"", "cardinal://"}[R.Intn(2)] + "kafka://" + strings.Join(as, ",") + "?compression.codec=none&retry.backoff.ms=20"
}

// c30refused: a topic that can't be had is an error, and the producer is none.
func c30refused(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := fakekafka.New(1 + R.Intn(3))
	defer cl.Close()
	s := newSchema(c, g)
	s.Topics["more/"] = s.Default + "-more"
	defer retire(cl, s)
	all := s.AllTopics()
	victim := all[R.Intn(len(all))]
	why := R.Intn(5)
	for _, t := range all {
		if t != victim && R.Intn(2) == 0 {
			cl.CreateTopic(t, 1, nil)
		}
	}
	var hits atomic.Int64
	def, topics := s.Default, s.Topics
	code := int16(0)
	switch why {
	case 0: // refused: policy, authorisation, invalid name, too many copies
		code = []int16{29, 44, 17, 38, 40}[R.Intn(5)]
	case 1: // hangs up
	case 2:
		def = ""
	case 3:
		topics = map[string]string{}
		for k, v := range s.Topics {
			topics[k] = v
		}
		topics["more/"] = ""
	case 4: // hangs up when asked about the topic
		cl.SetLookupHook(func(t string) bool { return t == victim })
	}
	cl.SetCreateHook(func(t string) (a fakekafka.Action) {
		if t == victim && why < 2 {
			hits.Add(1)
			a.Err, a.DropBefore = code, why == 1
		}
		return
	}, 0)
	var p transports.Producer
	var err error
	if !within(patience, func() { p, err = transports.ResolveProducerWithResumer(someURL(cl, R), def, topics, nil) }) {
		c.Violate("stuck", "the producer is not through after %v (why %d, code %d)", patience, why, code)
		return
	}
	if err == nil {
		c.Violate("no-error", "a producer without topic %s was made (why %d, code %d, %d refusals)", victim, why, code, hits.Load())
	}
	_ = p
	if why == 2 || why == 3 {
		for _, q := range cl.Creations("") {
			c.Violate("unnamed", "asked to create a topic without a name: %v", q)
		}
	}
	c.Count("refused", 1)
	c.Distinct(why, code, len(all), len(victim))
	c.Sample("why %d code %d: %v", why, code, err)
}

// c30offsets: a producer starts even if a partition tells no offsets.
func c30offsets(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(3))
	s := newSchema(c, g)
	mkTopics(cl, s, R, nil)
	defer retire(cl, s)
	w := newWorld(c, g, s, 1+R.Intn(6), 0, 4)
	newFeed(c, cl, s).blocks(w.blocks, R, 0)
	n := len(w.blocks)
	bad := map[int32]bool{}
	for k := R.Intn(3); k >= 0; k-- {
		bad[int32(R.Intn(cl.Parts(s.Default)))] = true
	}
	act := []fakekafka.Action{{Err: 29}, {Err: 76}, {Err: 3}, {DropBefore: true}}[R.Intn(4)]
	var hits atomic.Int64
	cl.SetHooks(s.Default, &fakekafka.Hooks{Offsets: func(_ string, p int32) (a fakekafka.Action) {
		if bad[p] {
			hits.Add(1)
			a = act
		}
		return
	}})
	var p transports.Producer
	var err error
	if !within(patience, func() { p, err = transports.ResolveProducerWithResumer(plainURL(cl, R), s.Default, s.Topics, nil) }) {
		c.Violate("stuck", "the producer is not through after %v: partitions %v of %d tell no offsets (%+v)", patience, bad, cl.Parts(s.Default), act)
		return
	}
	if err != nil {
		c.Violate("not-started", "partitions %v of %d tell no offsets (%+v): %v", bad, cl.Parts(s.Default), act, err)
		return
	}
	cl.SetHooks(s.Default, nil)
	w.grow(g, 1+R.Intn(4), 0, 4)
	if !within(patience, func() {
		for _, b := range w.blocks[n:] {
			if err := addBlock(p, b); err != nil {
				c.Violate("add-block", "AddBlock: %v", err)
			}
			for _, s := range b.Subs {
				if err := p.SendBatch(s.ID, s.Deletes, s.Updates); err != nil {
					c.Violate("send-batch", "SendBatch: %v", err)
				}
			}
		}
	}) {
		c.Violate("stuck", "producing %d blocks did not finish within %v", len(w.blocks)-n, patience)
		return
	}
	cfg := w.cfg(128)
	cs := consumer(c, cl, w, "", -1, cfg)
	a := newApp(c, w, "app", cfg)
	a.attach(cs, 10)
	startConsumer(c, cs)
	if !a.await(w.heaviest(), patience) {
		c.Violate("not-carried", "the head is %s, expected %s", a.nm(a.tip()), a.nm(w.heaviest().Hash))
	}
	a.detach()
	closeConsumer(c, cs)
	c.Count("started_without_offsets", 1)
	c.Count("lookups_refused", int(hits.Load()))
	c.Distinct(len(bad), act.Err, act.DropBefore, cl.Parts(s.Default), len(w.blocks))
	c.Sample("%d of %d partitions tell no offsets (%+v), %d lookups refused", len(bad), cl.Parts(s.Default), act, hits.Load())
}
