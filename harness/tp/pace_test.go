//go:build go1.21

package tp

import (
	"fmt"
	"math/big"
	"sort"
	"sync"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

func init() {
	registry["C31"] = func(r *core.Run) {
		r.Cases("pace", r.Pick(120, 3000), c31)
	}
}

// track is one partition with messages to catch up with.
type track struct {
	topic   string
	part    int
	n       int   // its messages
	first   int64 // offset of the first
	scale   int64
	every   int // one in so many is a block
	blocks  int
	unheld  int64 // served freely up to this many, then held
	seen    int64 // messages known to have been handled
	gone    int   // blocks received
	heldNow bool
}

// c31: while partitions catch up, none is handled far ahead of another.
func c31(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(3))
	pre := fmt.Sprintf("%s-%d-%d-", c.Suite, c.I, R.Intn(1000000))
	var mu sync.Mutex
	tracks := map[string]*track{}
	hooks := &fakekafka.Hooks{Fetch: func(t string, p int32) (a fakekafka.Action) {
		mu.Lock()
		defer mu.Unlock()
		if x := tracks[source(t, int(p))]; x != nil && x.heldNow {
			if a.Hold = cl.Topic(t).Served(int(p))-x.first >= x.unheld; !a.Hold {
				a.Batches = 1
			}
		}
		return
	}}
	nt := 1 + R.Intn(2)
	s := core.Schema{Default: pre + "def", Topics: map[string]string{}}
	for i := 1; i < nt; i++ {
		s.Topics[fmt.Sprint("k", i)] = fmt.Sprint(pre, "t", i)
	}
	defer retire(cl, s)
	start := &core.Block{Number: int64(1000 + R.Intn(1000)), Hash: g.NewHash('S'), Parent: g.NewHash('G'), Weight: big.NewInt(int64(1 + R.Intn(1000)))}
	w := &world{start: start, schema: s, by: map[types.Hash]*core.Block{}, name: map[types.Hash]string{start.Hash: "S"}}
	f := newFeed(c, cl, s)
	// how the offsets begin, and how far they are apart
	scaled := R.Intn(2) == 0
	token := ""
	var all []*track
	mark := map[types.Hash]*track{}
	nth := map[types.Hash]int{}
	for ti, t := range s.AllTopics() {
		parts := 1 + R.Intn(4)
		if nt == 1 && parts == 1 {
			parts = 2
		}
		cl.CreateTopic(t, parts, hooks)
		base := int64(0)
		if scaled {
			base = int64([]int{1, 100, 250, 700, 1000}[R.Intn(5)])
			cl.SetBase(t, base)
		}
		for p := 0; p < parts; p++ {
			n := []int{0, 1 + R.Intn(200), 300 + R.Intn(300), 900 + R.Intn(900)}[R.Intn(4)]
			if ti == 0 && p == 0 || ti == nt-1 && p == parts-1 {
				n = 900 + R.Intn(900)
			}
			x := &track{topic: t, part: p, n: n, first: cl.HWM(t, p), scale: 1, every: 10 + R.Intn(10)}
			if scaled {
				// from there; the topics' messages are not older
				token += fmt.Sprintf(";%s:%d=%d", t, p, x.first)
				if x.first > 1 {
					x.scale = x.first
				}
			}
			for k := 0; k < n; k++ {
				if k%x.every != x.every-1 {
					cl.Append(t, p, ping(byte(1+p)), nil, 0)
					continue
				}
				b := &core.Block{Number: start.Number + 5, Hash: g.NewHash('M'), Parent: g.NewHash('N'), Weight: big.NewInt(1), Updates: map[string][]byte{}, Deletes: map[string]struct{}{}}
				m := f.recs(b)[0]
				cl.Append(t, p, m.k, m.v, 0)
				mark[b.Hash], nth[b.Hash] = x, k
				x.blocks++
			}
			all = append(all, x)
			tracks[source(t, p)] = x
		}
	}
	if token != "" {
		token = token[1:]
	}
	// one or two of them get stuck
	var backlog, held []*track
	for _, x := range all {
		if x.n > 0 {
			backlog = append(backlog, x)
		}
	}
	for _, i := range R.Perm(len(backlog))[:1+R.Intn(imin(2, len(backlog)-1))] {
		x := backlog[i]
		x.heldNow = true
		x.unheld = int64([]int{0, 1, R.Intn(30), R.Intn(300)}[R.Intn(4)])
		if x.unheld >= int64(x.n) {
			x.unheld = int64(x.n) - 1
		}
		held = append(held, x)
	}
	low := backlog[0].scale
	for _, x := range backlog {
		if x.scale < low {
			low = x.scale
		}
	}
	cfg := w.cfg(128)
	rollback := int64(0)
	if !scaled {
		rollback = int64(-R.Intn(2))
	}
	cs := consumer(c, cl, w, token, rollback, cfg)
	pbs := make(chan *delivery.PendingBatch)
	sub := cs.Subscribe(pbs)
	stop, done := make(chan struct{}), make(chan struct{})
	var begin, last time.Time
	lead := int64(0)
	left := len(mark)
	go func() {
		defer close(done)
		defer sub.Unsubscribe()
		for {
			select {
			case pb := <-pbs:
				at := time.Now()
				mu.Lock()
				x, k := mark[pb.Hash], int64(nth[pb.Hash])
				if x == nil {
					c.Violate("unknown-block", "handed over %x, which is not on the feed", pb.Hash[:4])
					mu.Unlock()
					continue
				}
				delete(mark, pb.Hash)
				x.seen = k + 1
				x.gone++
				left--
				last = at
				for _, h := range held {
					if h == x || !h.heldNow || at.Sub(begin) > 4500*time.Millisecond {
						continue
					}
					ahead := k + 1 - h.unheld*(x.scale/low)
					if ahead > lead {
						lead = ahead
					}
					if most := (x.scale/low)*(h.unheld+256+2) + 1; k+1 > most {
						c.Violate("ahead", "%s: message %d of its backlog of %d is handled while only %d of %d of %s have been served (starting offsets %d and %d, smallest %d)", source(x.topic, x.part), k+1, x.n, h.unheld, h.n, source(h.topic, h.part), x.scale, h.scale, low)
					}
				}
				mu.Unlock()
			case <-stop:
				return
			}
		}
	}()
	mu.Lock()
	begin = time.Now()
	last = begin
	mu.Unlock()
	startConsumer(c, cs)
	isReady := cs.Ready()
	long := R.Intn(8) == 0
	// until nothing comes any more
	wait(4*time.Second, func() bool {
		mu.Lock()
		defer mu.Unlock()
		return c.Bad() || time.Since(last) > 900*time.Millisecond
	})
	if hasClosed(isReady) {
		c.Violate("ready", "ready while %s is stuck", source(held[0].topic, held[0].part))
	}
	// those that are served
	free := func() (n int) {
		mu.Lock()
		defer mu.Unlock()
		for _, x := range all {
			if !x.heldNow {
				n += x.blocks - x.gone
			}
		}
		return
	}
	silent := false // one that was never heard from
	for _, h := range held {
		silent = silent || h.unheld == 0
	}
	if before := free(); long && !silent && before > 0 && !c.Bad() {
		// after some seconds of standing still, they go on a little
		if !wait(patience, func() bool { return free() < before }) {
			c.Violate("stuck", "partitions do not go on while %s is stuck", source(held[0].topic, held[0].part))
		}
		c.Count("waits_ended", 1)
	}
	mu.Lock()
	for _, h := range held {
		h.heldNow = false
	}
	mu.Unlock()
	if !wait(patience, func() bool { mu.Lock(); defer mu.Unlock(); return left == 0 }) {
		var miss []string
		mu.Lock()
		for _, x := range all {
			if x.gone < x.blocks {
				miss = append(miss, fmt.Sprintf("%s %d of %d", source(x.topic, x.part), x.gone, x.blocks))
			}
		}
		mu.Unlock()
		sort.Strings(miss)
		c.Violate("lost", "blocks are missing once all partitions are served: %v", miss)
	} else if !wait(patience, func() bool { return hasClosed(isReady) }) {
		c.Violate("never-ready", "not ready once all partitions are served")
	}
	close(stop)
	<-done
	closeConsumer(c, cs)
	msgs := 0
	for _, x := range all {
		msgs += x.n
	}
	c.Count("partitions", len(all))
	c.Count("messages", msgs)
	c.Count("stuck_partitions", len(held))
	c.Max("max_lead", lead)
	c.Distinct(len(all), msgs, scaled, long, lead)
	c.Sample("%d partitions with %d messages, %d of them stuck (scaled %v): others got up to %d ahead", len(all), msgs, len(held), scaled, lead)
}

func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
