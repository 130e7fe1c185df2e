//go:build go1.21

package tp

import (
	"bytes"
	"errors"
	"fmt"
	"net/url"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

func init() {
	registry["C21"] = func(r *core.Run) {
		r.Cases("dedupe", r.Pick(500, 10000), c21)
		r.Cases("long", r.Pick(24, 300), c21long)
	}
	registry["C22"] = func(r *core.Run) {
		r.Cases("latest", r.Pick(700, 14000), c22)
	}
	registry["C20"] = func(r *core.Run) {
		r.Cases("pings", r.Pick(240, 5000), c20)
		r.Cases("ticks", r.Pick(8, 48), c20ticks)
	}
	registry["C26"] = func(r *core.Run) {
		r.Cases("config", r.Pick(3000, 60000), c26config)
		r.Cases("wire", r.Pick(160, 3000), c26wire)
		r.Cases("sasl", r.Pick(80, 1500), c26sasl)
	}
}

func plainProducer(c *core.C, cl *fakekafka.Cluster, s core.Schema) transports.Producer {
	var p transports.Producer
	var err error
	u := cl.URLWith("none", "retry.backoff.ms=20")
	if !within(patience, func() { p, err = transports.NewKafkaProducer(u, s.Default, s.Topics) }) {
		c.Violate("producer-stuck", "creating a producer did not return within %v", patience)
		c.Abort()
	}
	if err != nil {
		c.Violate("producer-error", "creating a producer: %v", err)
		c.Abort()
	}
	return p
}

// bag is what a cluster's topics hold, as counts of topic, key and value.
func bag(cl *fakekafka.Cluster, s core.Schema) map[string]int {
	out := map[string]int{}
	for _, t := range s.AllTopics() {
		for p := 0; p < cl.Parts(t); p++ {
			for _, r := range cl.Records(t, p) {
				if len(r.Key) == 0 || r.Key[0] == core.TPing || r.Key[0] == core.TBatch {
					// headers are identified by their key: their encoding may
					// order maps either way
					r.Value = nil
				}
				out[fmt.Sprintf("%s|%x|%x", t, r.Key, r.Value)]++
			}
		}
	}
	return out
}

func bagOf(rs []rec) map[string]int {
	out := map[string]int{}
	for _, r := range rs {
		v := r.v
		if r.k[0] == core.TBatch {
			v = nil
		}
		out[fmt.Sprintf("%s|%x|%x", r.topic, r.k, v)]++
	}
	return out
}

func total(cl *fakekafka.Cluster, s core.Schema) (n int64) {
	for _, t := range s.AllTopics() {
		n += cl.Total(t)
	}
	return n
}

// c21: blocks already on the feed are not sent again, all others are sent,
// once, and completely.
func c21(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(2))
	s := newSchema(c, g)
	var h *fakekafka.Hooks
	if R.Intn(3) == 0 {
		h = trickle(R)
	}
	mkTopics(cl, s, R, h)
	defer retire(cl, s)
	w := newWorld(c, g, s, R.Intn(50), 20, []int{0, 4, 8}[R.Intn(3)])
	f := newFeed(c, cl, s)
	expired := R.Intn(4) == 0
	for _, b := range w.blocks {
		f.block(b)
		for k := R.Intn(4) * R.Intn(4) * R.Intn(4); k > 0; k-- {
			cl.Append(s.Default, R.Intn(cl.Parts(s.Default)), append([]byte{core.TPing}, bytes.Repeat([]byte{byte(k)}, 32)...), []byte{1}, 0)
		}
		if expired && R.Intn(10) == 0 {
			p := R.Intn(cl.Parts(s.Default))
			if n := cl.HWM(s.Default, p); n > cl.Start(s.Default, p) {
				cl.Trim(s.Default, p, n-int64(R.Intn(2)))
			}
		}
	}
	if R.Intn(3) == 0 { // something else, and just about 100 messages
		p := R.Intn(cl.Parts(s.Default))
		for k := R.Intn(3); k > 0; k-- {
			cl.Append(s.Default, p, [][]byte{{}, {core.TBatch}, append([]byte{core.TBatch}, make([]byte, 20)...), {9, 9}, {core.TPing}}[R.Intn(5)], []byte{1}, 0)
		}
		for n := cl.Start(s.Default, p) + int64(97+R.Intn(6)); R.Intn(4) > 0 && cl.HWM(s.Default, p) < n; {
			cl.Append(s.Default, p, ping(byte(R.Intn(4))), []byte{1}, 0)
		}
	}
	// headers among a partition's last 100 messages must be known
	seen := map[types.Hash]bool{}
	for p := 0; p < cl.Parts(s.Default); p++ {
		hwm := cl.HWM(s.Default, p)
		start := cl.Start(s.Default, p)
		for _, r := range cl.Records(s.Default, p) {
			if r.Offset >= hwm-100 && r.Offset >= start && len(r.Key) == 33 && r.Key[0] == core.TBatch {
				seen[types.BytesToHash(r.Key[1:33])] = true
			}
		}
	}
	p := plainProducer(c, cl, s)
	try := func(b *core.Block) {
		if err := addBlock(p, b); err != nil {
			c.Violate("add-block", "AddBlock: %v", err)
		}
		if err := sendSubs(p, b, R); err != nil {
			c.Violate("send-batch", "SendBatch: %v", err)
		}
	}
	before := bag(cl, s)
	old := append([]*core.Block{}, w.blocks...)
	w.grow(g, 1+R.Intn(8), 30, 6)
	fresh := w.blocks[len(old):]
	mix := append(append([]*core.Block{}, old...), fresh...)
	R.Shuffle(len(mix), func(i, j int) { mix[i], mix[j] = mix[j], mix[i] })
	want := map[string]int{}
	may := map[string]bool{} // older than what the producer looked at
	for _, b := range mix {
		rs := bagOf(f.recs(b))
		switch {
		case seen[b.Hash]:
			c.Count("known_blocks", 1)
		default:
			isFresh := false
			for _, x := range fresh {
				isFresh = isFresh || x == b
			}
			for k, n := range rs {
				if isFresh {
					want[k] += n
				} else {
					may[k] = true
				}
			}
			if isFresh {
				c.Count("fresh_blocks", 1)
			} else {
				c.Count("forgotten_blocks", 1)
			}
		}
		try(b)
	}
	diff := func(want map[string]int, may map[string]bool) (missing, extra string) {
		after := bag(cl, s)
		for k, n := range want {
			if after[k]-before[k] < n {
				missing = k
			}
		}
		for k, n := range after {
			if n-before[k] > want[k] && !may[k] && !strings.HasPrefix(k, s.Default+"|ff") {
				extra = k
			}
		}
		return
	}
	if !wait(patience, func() bool { m, _ := diff(want, may); return m == "" }) {
		m, _ := diff(want, may)
		c.Violate("not-sent", "a block not on the feed was given to the producer, but this message of it is missing: %.300s", m)
	}
	time.Sleep(20 * time.Millisecond)
	if _, x := diff(want, may); x != "" {
		c.Violate("sent-again", "a message of a block that was on the feed already (or a second copy) was sent: %.300s", x)
	}
	if err := p.SendBatch(g.NewHash('u'), nil, map[string][]byte{}); !errors.Is(err, delivery.ErrUnknownBatch) {
		c.Violate("unknown-batch", "SendBatch for a batch nobody announced gave error %v", err)
	}
	// while running, others' blocks become known
	if R.Intn(2) == 0 && !c.Bad() {
		ok := false
		for _, d := range []time.Duration{50 * time.Millisecond, time.Second, 3 * time.Second, 10 * time.Second} {
			w.grow(g, 1, 0, 5)
			b := w.blocks[len(w.blocks)-1]
			f.block(b)
			time.Sleep(d)
			n := total(cl, s)
			try(b)
			time.Sleep(30*time.Millisecond + d/10)
			if total(cl, s) == n {
				ok = true
				break
			}
		}
		if !ok {
			c.Violate("live-sent-again", "the producer sent a block that another had put on the feed 10 s before")
		}
		c.Count("live_known", 1)
	}
	// an operator asks for it
	if R.Intn(2) == 0 && len(seen) > 0 && !c.Bad() {
		p.PurgeReplayCache()
		before, want, may = bag(cl, s), map[string]int{}, map[string]bool{}
		k := 0
		for _, b := range old {
			if seen[b.Hash] && k < 5 {
				for m, n := range bagOf(f.recs(b)) {
					want[m] += n
				}
				try(b)
				k++
			}
		}
		if !wait(patience, func() bool { m, _ := diff(want, may); return m == "" }) {
			m, _ := diff(want, may)
			c.Violate("replay-not-sent", "after PurgeReplayCache this message of a block was not sent: %.300s", m)
		}
		c.Count("replayed_blocks", k)
	}
	c.Distinct(len(old), len(seen), len(fresh), cl.Parts(s.Default), len(before))
	c.Sample("%d blocks on the feed, %d of them recent, %d new", len(old), len(seen), len(fresh))
}

// c22: the latest block number of the feed.
// c21long: a producer that was behind another one for hundreds of blocks.
func c21long(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1)
	s := newSchema(c, g)
	mkTopics(cl, s, R, nil)
	defer retire(cl, s)
	w := newWorld(c, g, s, 1, 20, 2)
	f := newFeed(c, cl, s)
	p := plainProducer(c, cl, s)
	var sent int64
	for _, d := range []time.Duration{time.Second, 5 * time.Second, 20 * time.Second} {
		first := len(w.blocks)
		w.grow(g, 150+R.Intn(450), 20, 2)
		bs := w.blocks[first:]
		for _, b := range bs {
			f.block(b)
		}
		time.Sleep(d)
		n := total(cl, s)
		if R.Intn(3) == 0 {
			R.Shuffle(len(bs), func(i, j int) { bs[i], bs[j] = bs[j], bs[i] })
		}
		for _, b := range bs {
			if err := addBlock(p, b); err != nil {
				c.Violate("add-block", "AddBlock: %v", err)
			}
		}
		subs := 0
		for _, b := range bs {
			subs += len(b.Subs)
			if err := sendSubs(p, b, R); err != nil {
				c.Violate("send-batch", "SendBatch for one of %d blocks that were on the feed: %v", len(bs), err)
				return
			}
		}
		time.Sleep(100*time.Millisecond + d/10)
		sent = total(cl, s) - n
		c.Count("known_blocks", len(bs))
		c.Max("max_known_parts", int64(subs))
		if sent == 0 {
			break
		}
	}
	if sent != 0 {
		c.Violate("live-sent-again", "the producer sent %d messages of blocks that another had put on the feed 20 s before", sent)
	}
	c.Distinct("long", len(w.blocks))
}

func c22(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(4 + R.Intn(2)) // apart from the other suites' topics
	nb := 1 + R.Intn(2)
	alone := R.Intn(24) == 0 // with nobody else's connections
	if alone {
		cl = fakekafka.New(nb)
		defer cl.Close()
	}
	s := newSchema(c, g)
	var h *fakekafka.Hooks
	if R.Intn(4) == 0 {
		h = trickle(R)
	}
	mkTopics(cl, s, R, h)
	defer retire(cl, s)
	f := newFeed(c, cl, s)
	n := []int{0, 1, 5, 40, 150}[R.Intn(5)]
	num := int64(R.Intn(1 << 40))
	for i := 0; i < n; i++ {
		b := &core.Block{Number: num, Hash: g.NewHash('B'), Parent: g.NewHash('P'), Weight: g.Weight(), Updates: map[string][]byte{}, Deletes: map[string]struct{}{}}
		num += int64(R.Intn(4) - 1)
		if num < 0 {
			num = 0
		}
		if R.Intn(3) == 0 {
			g.Fill(b, 4)
		}
		if _, err := core.Produce(f.p, b); err != nil {
			b.Updates, b.Deletes, b.Subs = map[string][]byte{}, map[string]struct{}{}, nil
		}
		f.block(b)
		for k := R.Intn(3) * R.Intn(3); k > 0; k-- {
			key := append([]byte{core.TPing}, bytes.Repeat([]byte{byte(k)}, 32)...)
			if R.Intn(20) == 0 {
				key = []byte{}
			}
			cl.Append(s.Default, R.Intn(cl.Parts(s.Default)), key, []byte{1}, 0)
		}
	}
	if R.Intn(4) == 0 { // just about 100 messages
		p := R.Intn(cl.Parts(s.Default))
		for n := cl.Start(s.Default, p) + int64(97+R.Intn(6)); cl.HWM(s.Default, p) < n; {
			cl.Append(s.Default, p, ping(byte(R.Intn(4))), []byte{1}, 0)
		}
	}
	if R.Intn(4) == 0 {
		p := R.Intn(cl.Parts(s.Default))
		hwm := cl.HWM(s.Default, p)
		cl.Trim(s.Default, p, hwm-int64(R.Intn(int(hwm-cl.Start(s.Default, p))/2+1)))
	}
	var low, high int64
	for p := 0; p < cl.Parts(s.Default); p++ {
		hwm, start := cl.HWM(s.Default, p), cl.Start(s.Default, p)
		for _, r := range cl.Records(s.Default, p) {
			if len(r.Key) == 0 || r.Key[0] != core.TBatch || r.Offset < start {
				continue
			}
			sb, err := core.DecodeBatch(r.Value)
			if err != nil {
				panic(err)
			}
			if sb.Num > high {
				high = sb.Num
			}
			if r.Offset >= hwm-100 && sb.Num > low {
				low = sb.Num
			}
		}
	}
	p := plainProducer(c, cl, s)
	var got int64
	for try := 0; ; try++ {
		var err error
		if !within(patience, func() { got, err = p.LatestBlockFromFeed() }) {
			c.Violate("stuck", "LatestBlockFromFeed did not return within %v", patience)
			return
		}
		if err != nil {
			c.Violate("error", "LatestBlockFromFeed: %v", err)
			return
		}
		if got >= low && got <= high {
			break
		}
		if got > high || try == 3 { // it gives up on a partition after a second of silence
			c.Violate("wrong-number", "LatestBlockFromFeed gave %d, the last messages of the partitions have %d, all messages %d", got, low, high)
			break
		}
		c.Count("retries", 1)
	}
	if alone && !c.Bad() {
		// the producer itself has at most two clients
		for k := 0; k < 8; k++ {
			if !within(patience, func() { p.LatestBlockFromFeed() }) {
				c.Violate("stuck", "LatestBlockFromFeed did not return within %v", patience)
				return
			}
		}
		most := int64(2*nb + 2)
		if !wait(patience, func() bool { return cl.Conns() <= most }) {
			c.Violate("connections", "calls of LatestBlockFromFeed leave connections: there are %d, at most %d are the producer's", cl.Conns(), most)
		}
		c.Count("connection_counts", 1)
	}
	c.Distinct(n, got, low, high)
	c.Sample("%d blocks, latest %d (of recent ones %d, of all %d)", n, got, low, high)
}

func ping(id byte) []byte { return append([]byte{core.TPing}, bytes.Repeat([]byte{id}, 32)...) }

// c20: the number of producers heard from in some time.
func c20(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(2))
	s := newSchema(c, g)
	mkTopics(cl, s, R, nil)
	defer retire(cl, s)
	w := newWorld(c, g, s, R.Intn(5), 0, 0)
	newFeed(c, cl, s).blocks(w.blocks, R, 0)
	cs := consumer(c, cl, w, "", 0, w.cfg(128))
	startConsumer(c, cs)
	counters := map[string]transports.ProducerCounter{"consumer": cs}
	if R.Intn(2) == 0 {
		counters["producer"] = plainProducer(c, cl, s)
	}
	last := map[byte]bool{}
	ids := 1 + R.Intn(6)
	n := 1 + R.Intn(12)
	for i := 0; i < n; i++ {
		id := byte(1 + R.Intn(ids))
		cl.Append(s.Default, R.Intn(cl.Parts(s.Default)), ping(id), []byte{1}, 0)
		if last[id] || R.Intn(2) == 0 {
			time.Sleep(time.Duration(R.Intn(60)) * time.Millisecond)
		}
		last[id] = true
	}
	for name, pc := range counters {
		if !wait(patience, func() bool { return int(pc.ProducerCount(time.Hour)) == len(last) }) {
			c.Violate("count", "%s: %d producers sent heartbeats, ProducerCount says %d", name, len(last), pc.ProducerCount(time.Hour))
		}
	}
	if R.Intn(2) == 0 { // one more round
		id := byte(1 + R.Intn(ids))
		time.Sleep(time.Duration(R.Intn(100)) * time.Millisecond)
		last[id] = true
		cl.Append(s.Default, R.Intn(cl.Parts(s.Default)), ping(id), []byte{1}, 0)
	}
	// lower bound: those sent within d; the upper one takes longer to establish
	for name, pc := range counters {
		for i := 0; i < 20; i++ {
			d := time.Duration(R.Intn(400)) * time.Millisecond
			n := int(pc.ProducerCount(d))
			if n > len(last) {
				c.Violate("count", "%s: %d producers in all, ProducerCount(%v) says %d", name, len(last), d, n)
			}
		}
		c.Count("counts", 20)
	}
	time.Sleep(350 * time.Millisecond)
	for name, pc := range counters {
		if n := pc.ProducerCount(time.Hour); int(n) != len(last) {
			c.Violate("count", "%s: %d producers sent heartbeats within the hour, ProducerCount says %d", name, len(last), n)
		}
		// generous for a message to arrive: then everything is older than d
		if !wait(patience, func() bool { return pc.ProducerCount(300*time.Millisecond) == 0 }) {
			c.Violate("stale", "%s: ProducerCount(300ms) says %d although nobody sent a heartbeat for %v", name, pc.ProducerCount(300*time.Millisecond), patience)
		}
		if n := pc.ProducerCount(0); n != 0 {
			c.Violate("stale", "%s: ProducerCount(0) says %d", name, n)
		}
	}
	// and heard again
	id := byte(1 + R.Intn(ids))
	cl.Append(s.Default, R.Intn(cl.Parts(s.Default)), ping(id), []byte{1}, 0)
	at := time.Now()
	last[id] = true
	for name, pc := range counters {
		if !wait(patience, func() bool { return pc.ProducerCount(time.Since(at)+time.Second) >= 1 }) {
			c.Violate("count", "%s: a heartbeat was not counted", name)
		}
	}
	closeConsumer(c, cs)
	c.Count("heartbeats", n)
	c.Distinct(n, ids, len(last), len(counters), cl.Parts(s.Default), len(w.blocks))
	c.Sample("%d heartbeats by %d producers, seen by %d counters", n, len(last), len(counters))
}

// c20ticks: producers say that they are there every 30 seconds, unless they
// are not healthy, and do not count themselves.
func c20ticks(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1)
	s := newSchema(c, g)
	mkTopics(cl, s, R, nil)
	defer retire(cl, s)
	w := newWorld(c, g, s, 0, 0, 0)
	cs := consumer(c, cl, w, "", 0, w.cfg(128))
	startConsumer(c, cs)
	n := 2 + R.Intn(2)
	ps := make([]transports.Producer, n)
	healthy := make([]bool, n)
	t0 := time.Now()
	for i := range ps {
		ps[i] = plainProducer(c, cl, s)
		healthy[i] = i == n-1 || R.Intn(3) == 0
		if !healthy[i] || R.Intn(2) == 0 {
			ps[i].SetHealth(healthy[i])
		}
	}
	created := time.Since(t0)
	pings := func() map[string]int {
		out := map[string]int{}
		for p := 0; p < cl.Parts(s.Default); p++ {
			for _, r := range cl.Records(s.Default, p) {
				if len(r.Key) == 33 && r.Key[0] == core.TPing {
					out[string(r.Key)]++
				}
			}
		}
		return out
	}
	up := 0
	for _, b := range healthy {
		if b {
			up++
		}
	}
	// the last producer's tick is the last one
	if !wait(patience, func() bool { return len(pings()) >= up }) {
		c.Violate("no-heartbeat", "%d of %d healthy producers sent a heartbeat within %v", len(pings()), up, patience)
		return
	}
	time.Sleep(created + 500*time.Millisecond)
	if k := len(pings()); k != up {
		c.Violate("unhealthy-heartbeat", "%d of %d producers are healthy, %d sent heartbeats", up, n, k)
	}
	if !wait(10*time.Second, func() bool { return int(cs.ProducerCount(time.Minute)) == up }) {
		c.Violate("count", "a consumer counts %d producers, %d are there", cs.ProducerCount(time.Minute), up)
	}
	for i, p := range ps {
		others := up
		if healthy[i] {
			others--
		}
		if !wait(10*time.Second, func() bool { return int(p.ProducerCount(time.Minute)) == others }) {
			c.Violate("count", "producer %d (healthy: %v) counts %d others, %d are there", i, healthy[i], p.ProducerCount(time.Minute), others)
		}
	}
	first := pings()
	// everybody's health changes
	for i, p := range ps {
		p.SetHealth(!healthy[i])
	}
	down := up
	up = n - up
	time.Sleep(time.Until(t0.Add(60*time.Second + created + 4*time.Second)))
	second := pings()
	for k, v := range second {
		if f := first[k]; f > 0 && v > f {
			c.Violate("unhealthy-heartbeat", "a producer that is no longer healthy sent a heartbeat")
		}
	}
	if k := len(second) - len(first); k != up {
		if !wait(20*time.Second, func() bool { return len(pings())-len(first) == up }) {
			c.Violate("no-heartbeat", "%d producers became healthy, %d of them sent a heartbeat within 35 s", up, k)
		}
	}
	closeConsumer(c, cs)
	for _, p := range ps {
		p.SetHealth(false)
	}
	c.Count("ticks", up+down)
	c.Distinct("ticks", n, down, fmt.Sprint(healthy))
	c.Sample("%d producers, first %d then %d of them healthy", n, down, up)
}

// c26config: an URL's options end up where the Kafka client reads them.
func c26config(c *core.C) {
	R := c.R
	num := func() (string, int, bool) {
		switch R.Intn(6) {
		case 0:
			return "", 0, false
		case 1:
			return []string{"x", "1.5", "12s", "0x10", "1 2"}[R.Intn(5)], 0, false
		default:
			k := R.Intn(100000)
			return fmt.Sprint(k), k, true
		}
	}
	def := sarama.NewConfig()
	brokers := []string{}
	for i := 1 + R.Intn(4); i > 0; i-- {
		brokers = append(brokers, fmt.Sprintf("%s:%d", []string{"localhost", "kafka-1.example.org", "10.0.0.1", "a_b"}[R.Intn(4)], 1+R.Intn(65535)))
	}
	user, pass, auth := "", "", R.Intn(3) == 0
	var opts []string
	var checks []func(cfg *sarama.Config) string
	add := func(k, v string, chk func(cfg *sarama.Config) string) {
		if v != "\x00" {
			opts = append(opts, url.QueryEscape(k)+"="+url.QueryEscape(v))
		}
		checks = append(checks, chk)
	}
	eq := func(what string, got, want interface{}) string {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return fmt.Sprintf("%s is %v, expected %v", what, got, want)
		}
		return ""
	}
	maybe := func(v string) string {
		if R.Intn(3) == 0 {
			return "\x00"
		}
		return v
	}
	{
		v := maybe([]string{"1", "0", "", "true"}[R.Intn(4)])
		add("tls", v, func(cfg *sarama.Config) string { return eq("TLS", cfg.Net.TLS.Enable, v == "1") })
	}
	{
		v := maybe([]string{"1", "0", "", "true"}[R.Intn(4)])
		add("idempotent", v, func(cfg *sarama.Config) string { return eq("idempotent", cfg.Producer.Idempotent, v == "1") })
	}
	{
		v := maybe([]string{"gzip", "none", "lz4", "zstd", "snappy", "brotli", ""}[R.Intn(7)])
		want, ok := map[string]sarama.CompressionCodec{"gzip": sarama.CompressionGZIP, "none": sarama.CompressionNone, "lz4": sarama.CompressionLZ4, "zstd": sarama.CompressionZSTD}[v]
		if !ok {
			want = sarama.CompressionSnappy
		}
		add("compression.codec", v, func(cfg *sarama.Config) string { return eq("codec", cfg.Producer.Compression, want) })
	}
	number := func(key string, get func(cfg *sarama.Config) interface{}, conv func(int) interface{}, dflt interface{}) {
		v, k, ok := num()
		set := maybe(v)
		want := dflt
		if ok && set != "\x00" {
			want = conv(k)
		}
		add(key, set, func(cfg *sarama.Config) string { return eq(key+"="+set, get(cfg), want) })
	}
	number("fetch.default", func(cfg *sarama.Config) interface{} { return cfg.Consumer.Fetch.Default }, func(k int) interface{} { return k }, def.Consumer.Fetch.Default)
	number("max.waittime", func(cfg *sarama.Config) interface{} { return cfg.Consumer.MaxWaitTime }, func(k int) interface{} { return time.Duration(k) * time.Millisecond }, def.Consumer.MaxWaitTime)
	number("message.send.max.retries", func(cfg *sarama.Config) interface{} { return cfg.Producer.Retry.Max }, func(k int) interface{} { return k }, 100)
	number("retry.backoff.ms", func(cfg *sarama.Config) interface{} { return cfg.Producer.Retry.Backoff }, func(k int) interface{} { return time.Duration(k) * time.Millisecond }, def.Producer.Retry.Backoff)
	number("net.maxopenrequests", func(cfg *sarama.Config) interface{} { return cfg.Net.MaxOpenRequests }, func(k int) interface{} { return k }, def.Net.MaxOpenRequests)
	{
		v := maybe([]string{"0", "1", "-1", "all", ""}[R.Intn(5)])
		want := map[string]sarama.RequiredAcks{"0": sarama.NoResponse, "1": sarama.WaitForLocal}
		x, ok := want[v]
		if !ok {
			x = sarama.WaitForAll
		}
		add("request.required.acks", v, func(cfg *sarama.Config) string { return eq("acks", int(cfg.Producer.RequiredAcks), int(x)) })
	}
	{
		v := maybe([]string{"SCRAM-SHA-256", "SCRAM-SHA-512", "PLAIN", "GSSAPI", ""}[R.Intn(5)])
		add("sasl.mechanism", v, func(cfg *sarama.Config) string {
			want := string(def.Net.SASL.Mechanism)
			if v == "GSSAPI" {
				want = v
			}
			if strings.HasPrefix(v, "SCRAM") {
				want = v
				if cfg.Net.SASL.SCRAMClientGeneratorFunc == nil {
					return "no SCRAM client for " + v
				}
			}
			return eq("mechanism", string(cfg.Net.SASL.Mechanism), want)
		})
	}
	u := "kafka://"
	if auth {
		user, pass = "user"+fmt.Sprint(R.Intn(100)), []string{"secret", "p@ss:w/rd?", "", "ünï"}[R.Intn(4)]
		u += url.UserPassword(user, pass).String() + "@"
	}
	R.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	u += strings.Join(brokers, ",")
	if R.Intn(3) == 0 {
		u += "/"
	}
	if len(opts) > 0 || R.Intn(2) == 0 {
		u += "?" + strings.Join(opts, "&")
	}
	given := u
	if R.Intn(3) == 0 {
		given = strings.TrimPrefix(u, "kafka://")
	}
	list, cfg := transports.ParseKafkaURL(given)
	if d := eq("brokers", strings.Join(list, ","), strings.Join(brokers, ",")); d != "" {
		c.Violate("brokers", "%s: %s", given, d)
	}
	for _, chk := range checks {
		if d := chk(cfg); d != "" {
			c.Violate("option", "%s: %s", given, d)
		}
	}
	if cfg.Net.SASL.Enable != auth || auth && (cfg.Net.SASL.User != user || cfg.Net.SASL.Password != pass) {
		c.Violate("sasl", "%s: credentials %v %q %q", given, cfg.Net.SASL.Enable, cfg.Net.SASL.User, cfg.Net.SASL.Password)
	}
	c.Count("options", len(opts))
	c.Distinct(given)
	c.Sample("%s", given)
}

// c26wire: what the brokers see of it, and how topics are created.
func c26wire(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	nb := 1 + R.Intn(5)
	cl := cluster(nb)
	s := newSchema(c, g)
	created := R.Intn(3) > 0
	if !created {
		mkTopics(cl, s, R, nil)
	}
	defer retire(cl, s)
	codec := []string{"none", "gzip", "snappy", "lz4", "zstd", "bogus"}[R.Intn(6)]
	acks := []string{"", "1", "-1", "0"}[R.Intn(4)]
	u := cl.URLWith(codec, "retry.backoff.ms=20")
	if acks != "" {
		u += "&request.required.acks=" + acks
	}
	if R.Intn(2) == 0 {
		u = "cardinal://" + u
	}
	p, err := transports.ResolveProducerWithResumer(u, s.Default, s.Topics, nil)
	if err != nil {
		c.Violate("producer-error", "creating a producer for %s: %v", u, err)
		return
	}
	w := newWorld(c, g, s, 1+R.Intn(6), 0, 6)
	for _, b := range w.blocks {
		// compressible
		b.Updates["zz"] = bytes.Repeat([]byte("abc"), 300)
	}
	produceAll(c, p, w.blocks, R, false, false)
	cfg := w.cfg(128)
	wt, fd := 10+R.Intn(200), 500+R.Intn(5000)
	cu := cl.URLWith("none", fmt.Sprintf("max.waittime=%d&fetch.default=%d", wt, fd))
	if R.Intn(2) == 0 {
		cu = "cardinal://" + cu
	}
	cs, err := transports.ResolveConsumer(cu, s.Default, listed(R, s), nil, -1, cfg)
	if err != nil {
		c.Violate("consumer-error", "ResolveConsumer: %v", err)
		return
	}
	a := newApp(c, w, "app", cfg)
	a.attach(cs, 10)
	startConsumer(c, cs)
	if !a.await(w.heaviest(), patience) {
		c.Violate("not-converged", "the head is %s, expected %s", a.nm(a.tip()), a.nm(w.heaviest().Hash))
		return
	}
	t := cl.Topic(s.Default)
	if k := t.MaxWait.Load(); k != int64(wt) && k != 250 { // the producer fetches as well
		c.Violate("max.waittime", "%s: brokers are asked to wait %d ms", cu, k)
	}
	want, ok := map[string]int{"none": 0, "gzip": 1, "lz4": 3, "zstd": 4}[codec]
	if !ok {
		want = 2
	}
	for k, n := range cl.Codecs(s.Default) {
		if k != want {
			c.Violate("codec", "%s: %d batches came with codec %d", u, n, k)
		}
	}
	wa := int64(-1)
	if acks == "1" || acks == "0" {
		fmt.Sscan(acks, &wa)
	}
	if k := t.Acks.Load(); k != wa {
		c.Violate("acks", "%s: writes ask for acks %d", u, k)
	}
	if created {
		for _, topic := range s.AllTopics() {
			reqs := cl.Creations(topic)
			if len(reqs) != 1 {
				c.Violate("create", "%d requests to create topic %s", len(reqs), topic)
				continue
			}
			q := reqs[0]
			rep := int16(nb)
			if rep > 3 {
				rep = 3
			}
			if int(q.Partitions) != 2*nb || q.Replication != rep || q.Config["max.message.bytes"] != "10000024" {
				c.Violate("create", "with %d brokers, topic %s is created with %d partitions, replication %d, %v", nb, topic, q.Partitions, q.Replication, q.Config)
			}
		}
		c.Count("topics_created", len(s.AllTopics()))
	} else if n := len(cl.Creations(s.Default)); n > 0 {
		c.Violate("create", "%d requests to create topic %s, which exists", n, s.Default)
	}
	a.detach()
	closeConsumer(c, cs)
	c.Count("wire_"+codec, 1)
	c.Distinct("wire", codec, acks, nb, created, wt)
	c.Sample("%s: codec %d, acks %d", u, want, wa)
}

// c26sasl: only the right credentials get through, and those do.
func c26sasl(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	mech := []string{"SCRAM-SHA-256", "SCRAM-SHA-512", "PLAIN"}[R.Intn(3)]
	user, pass := fmt.Sprintf("user%d", R.Intn(50)), []string{"secret", "p@ss:w/rd?", "x y", "longer than the others, and with commas"}[R.Intn(4)]
	cl := fakekafka.New(1 + R.Intn(2))
	defer cl.Close()
	cl.RequireSASL(mech, user, pass)
	s := newSchema(c, g)
	mkTopics(cl, s, R, nil)
	defer retire(cl, s)
	wrong := R.Intn(4)
	u, p := user, pass
	switch wrong {
	case 0:
		p += "x"
	case 1:
		u += "x"
	}
	full := "kafka://" + url.UserPassword(u, p).String() + "@" + strings.Join(cl.Addrs(), ",") + "?compression.codec=none&max.waittime=50"
	if mech != "PLAIN" {
		full += "&sasl.mechanism=" + mech
	}
	if R.Intn(2) == 0 {
		full = "cardinal://" + full
	}
	w := newWorld(c, g, s, 3, 0, 5)
	cfg := w.cfg(128)
	var prod transports.Producer
	var cs transports.Consumer
	var perr, cerr error
	if !within(patience, func() {
		if prod, perr = transports.ResolveProducerWithResumer(full, s.Default, s.Topics, nil); perr == nil {
			produceAll(c, prod, w.blocks, R, false, false)
		}
		cs, cerr = transports.ResolveConsumer(full, s.Default, listed(R, s), nil, -1, cfg)
	}) {
		c.Violate("stuck", "connecting with %s credentials did not return within %v", map[bool]string{true: "wrong", false: "right"}[wrong < 2], patience)
		return
	}
	ok, failed, hands := cl.SASL()
	if wrong < 2 {
		if perr == nil || cerr == nil {
			c.Violate("let-in", "wrong credentials: producer error %v, consumer error %v", perr, cerr)
		}
		if ok > 0 {
			c.Violate("let-in", "%d successful authentications with wrong credentials", ok)
		}
		c.Count("refused", 1)
	} else {
		if perr != nil || cerr != nil {
			c.Violate("refused", "%s, right credentials: producer error %v, consumer error %v", full, perr, cerr)
			return
		}
		a := newApp(c, w, "app", cfg)
		a.attach(cs, 10)
		startConsumer(c, cs)
		if !a.await(w.heaviest(), patience) {
			c.Violate("not-converged", "with %s: the head is %s, expected %s", mech, a.nm(a.tip()), a.nm(w.heaviest().Hash))
		}
		a.detach()
		closeConsumer(c, cs)
		if failed > 0 {
			c.Violate("failed", "%d failed authentications with right credentials", failed)
		}
		for _, h := range hands {
			if h != mech {
				c.Violate("mechanism", "authenticated with %s instead of %s", h, mech)
			}
		}
		c.Count("authenticated", ok)
	}
	c.Distinct(mech, wrong, user, pass)
	c.Sample("%s, wrong %d: %d authentications, %d failed", mech, wrong, ok, failed)
}
