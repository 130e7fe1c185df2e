//go:build go1.21

package tp

import (
	"hash/fnv"
	"math/rand"
	"sort"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

// feed writes blocks to a cluster's topics directly, without a Kafka producer.
type feed struct {
	c  *core.C
	cl *fakekafka.Cluster
	s  core.Schema
	p  *delivery.Producer
	ts int64 // time of the records, if not now
}

func newFeed(c *core.C, cl *fakekafka.Cluster, s core.Schema) *feed {
	p, err := delivery.NewProducer(s.Default, s.Topics)
	if err != nil {
		c.Violate("producer-new", "%v", err)
		c.Abort()
	}
	return &feed{c: c, cl: cl, s: s, p: p}
}

func part(k []byte, n int) int {
	h := fnv.New32a()
	h.Write(k)
	return int(h.Sum32()>>3) % n
}

type rec struct {
	topic string
	part  int
	k, v  []byte
}

// recs are a block's messages and where they go.
func (f *feed) recs(b *core.Block) []rec {
	bu, err := core.Produce(f.p, b)
	if err != nil {
		f.c.Violate("produce", "%v", err)
		f.c.Abort()
	}
	var out []rec
	var topics []string
	for t := range bu {
		topics = append(topics, t)
	}
	sort.Strings(topics)
	for _, t := range topics {
		for _, m := range bu[t] {
			out = append(out, rec{t, part(m.Key(), f.cl.Parts(t)), m.Key(), m.Value()})
		}
	}
	return out
}

func (f *feed) put(rs ...rec) {
	for _, r := range rs {
		f.cl.Append(r.topic, r.part, r.k, r.v, f.ts)
	}
}

// block writes all of a block.
func (f *feed) block(b *core.Block) {
	f.put(f.recs(b)...)
	f.c.Count("blocks_produced", 1)
}

// blocks writes blocks; with a window, messages of neighbours interleave.
func (f *feed) blocks(bs []*core.Block, R *rand.Rand, window int) {
	var late []rec
	for _, b := range bs {
		rs := f.recs(b)
		f.c.Count("blocks_produced", 1)
		if window == 0 {
			f.put(rs...)
			continue
		}
		late = append(late, rs...)
		for len(late) > window {
			i := R.Intn(window)
			f.put(late[i])
			late = append(late[:i], late[i+1:]...)
		}
	}
	f.put(late...)
}

// hwms gives the next offset of every partition.
func hwms(cl *fakekafka.Cluster, s core.Schema) map[string]int64 {
	out := map[string]int64{}
	for _, t := range s.AllTopics() {
		for p := 0; p < cl.Parts(t); p++ {
			out[source(t, p)] = cl.HWM(t, p)
		}
	}
	return out
}

func source(t string, p int) string { return t + ":" + itoa(p) }

func itoa(p int) string {
	const d = "0123456789"
	if p < 10 {
		return d[p : p+1]
	}
	return itoa(p/10) + d[p%10:p%10+1]
}

// trickle serves slowly and little at a time.
func trickle(R *rand.Rand) *fakekafka.Hooks {
	d := time.Duration(R.Intn(12)) * time.Millisecond
	n := 1 + R.Intn(5)
	return &fakekafka.Hooks{Fetch: func(string, int32) fakekafka.Action { return fakekafka.Action{Delay: d, Batches: n} }}
}
