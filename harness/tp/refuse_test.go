//go:build go1.21

package tp

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
	"verif/harness/fakekafka"
)

func init() {
	registry["C32"] = func(r *core.Run) {
		r.Cases("refuse", r.Pick(900, 20000), c32)
		r.Cases("start", r.Pick(160, 3000), c32start)
	}
}

type noBlocks struct{}

func (noBlocks) BlocksFrom(context.Context, uint64, types.Hash) (chan *delivery.PendingBatch, error) {
	return make(chan *delivery.PendingBatch), nil
}
func (noBlocks) GetBlock(context.Context, uint64) *delivery.PendingBatch { return nil }

// c32: what can't work is an error, from whichever call it is given to.
func c32(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := cluster(1 + R.Intn(3))
	s := newSchema(c, g)
	mkTopics(cl, s, R, nil)
	defer retire(cl, s)
	w := newWorld(c, g, s, 1+R.Intn(3), 0, 0)
	newFeed(c, cl, s).blocks(w.blocks, R, 0)
	cfg := w.cfg(128)
	good := consumerURL(cl, R)
	card := func(u string) string { return []string{"", "cardinal://"}[R.Intn(2)] + u }
	dead := func() string { // nobody listens
		var as []string
		for k := R.Intn(2); k >= 0; k-- {
			as = append(as, fmt.Sprintf("127.0.0.1:%d", freePort()))
		}
		return "kafka://" + strings.Join(as, ",") + "?compression.codec=none"
	}
	garbled := func() string {
		a := cl.Addrs()[0]
		return []string{"kafka://" + a + "/%zz", "kafka://user:pa%ss@" + a, "kafka://" + a + ":x:y?compression.codec=none", "kafka://[::1:9092", "kafka://a b:9092", "kafka://" + a + "\x7f", "kafka://", "kafka://?compression.codec=none"}[R.Intn(8)]
	}
	foreign := func() string {
		a := cl.Addrs()[0]
		return []string{"http://" + a, "", "cardinal", "kafkas://" + a, "kafk://" + a, "Kafka://" + a, "tcp://" + a, "amqp://x", "://" + a, "wsss://" + a, "file:///dev/null"}[R.Intn(11)]
	}
	var bad, what string
	var err error
	where := R.Intn(4) // consumer, mux consumer, timestamp, producers
	tok, rollback := "", int64(R.Intn(3)-1)
	topics := listed(R, s)
	switch k := R.Intn(7); {
	case k == 0:
		bad, what = foreign(), "protocol"
	case k == 1:
		bad, what = dead(), "nobody"
	case k == 2:
		bad, what = garbled(), "garbled"
	case where < 2:
		bad, what = good, "token"
		t := fmt.Sprintf("%s:%d=", topics[0], R.Intn(2))
		tok = t + []string{"x", "", "1.5", "0x10", "99999999999999999999", "1 ", " 1", "one", "1e3"}[R.Intn(9)]
		if R.Intn(2) == 0 {
			tok = fmt.Sprintf("%s:7=12;%s", topics[0], tok)
		}
		if R.Intn(2) == 0 {
			tok += fmt.Sprintf(";%s:8=3", topics[0])
		}
	case where == 2:
		if R.Intn(2) == 0 {
			bad, what = fmt.Sprintf("ws://127.0.0.1:%d", freePort()), "no-timestamps"
			break
		}
		bad, what = good, "no-topic"
		topics = append(topics, s.Default+"-absent")
		R.Shuffle(len(topics), func(i, j int) { topics[i], topics[j] = topics[j], topics[i] })
	default:
		what = "producer"
	}
	call := func() {
		switch where {
		case 0:
			var cs transports.Consumer
			if what != "protocol" && R.Intn(2) == 0 {
				cs, err = transports.NewKafkaConsumer(strings.TrimPrefix(bad, "cardinal://"), s.Default, topics, []byte(tok), rollback, cfg)
			} else {
				cs, err = transports.ResolveConsumer(card(bad), s.Default, topics, []byte(tok), rollback, cfg)
			}
			if err == nil {
				cs.Close()
			}
		case 1:
			bps := []transports.BrokerParams{{URL: card(bad), DefaultTopic: s.Default, Topics: topics, Rollback: rollback}}
			for k := R.Intn(3); k > 0; k-- {
				bps = append(bps, transports.BrokerParams{URL: []string{good, "null://"}[R.Intn(2)], DefaultTopic: s.Default, Topics: topics, Rollback: rollback})
			}
			R.Shuffle(len(bps), func(i, j int) { bps[i], bps[j] = bps[j], bps[i] })
			var cs transports.Consumer
			cs, err = transports.ResolveMuxConsumer(bps, []byte(tok), cfg)
			if err == nil {
				cs.Close()
			}
		case 2:
			bps := []transports.BrokerParams{{URL: card(bad), DefaultTopic: s.Default, Topics: topics}}
			for k := R.Intn(3); k > 0; k-- {
				bps = append(bps, transports.BrokerParams{URL: []string{good, "null://"}[R.Intn(2)], DefaultTopic: s.Default, Topics: listed(R, s)})
			}
			R.Shuffle(len(bps), func(i, j int) { bps[i], bps[j] = bps[j], bps[i] })
			_, err = transports.ResumptionForTimestamp(bps, time.Now().UnixMilli())
		default:
			schema := s.Topics
			var resumer transports.StreamsResumption = noBlocks{}
			way := R.Intn(3)
			if what == "producer" {
				switch R.Intn(6) {
				case 0:
					bad, what = fmt.Sprintf("ws://0.0.0.0:%d", freePort()), "no-resumer"
					resumer = nil
				case 1:
					bad, what = []string{"ws://0.0.0.0", "wss://0.0.0.0/x", "ws://0.0.0.0:", "ws://0.0.0.0:http"}[R.Intn(4)], "no-port"
				case 2:
					bad, what, way = fmt.Sprintf("%s://0.0.0.0:%d", []string{"ws", "wss"}[R.Intn(2)], freePort()), "deprecated", 0
				case 3:
					bad, what, way = fmt.Sprintf("%s://0.0.0.0:%d", []string{"http", "kafka", "", "wws"}[R.Intn(4)], freePort()), "ws-protocol", 3
				case 4:
					bad, what = "null://", "null-producer"
				default:
					bad, what = good, "schema"
					schema = map[string]string{"(": s.Default, "a": s.Default}
				}
			}
			switch way {
			case 0:
				_, err = transports.ResolveProducer(card(bad), s.Default, schema)
			case 1:
				_, err = transports.ResolveProducerWithResumer(card(bad), s.Default, schema, resumer)
			case 2:
				bps := []transports.ProducerBrokerParams{{URL: card(bad), DefaultTopic: s.Default, Schema: schema}}
				for k := R.Intn(2); k > 0; k-- {
					bps = append(bps, transports.ProducerBrokerParams{URL: good, DefaultTopic: s.Default, Schema: s.Topics})
				}
				R.Shuffle(len(bps), func(i, j int) { bps[i], bps[j] = bps[j], bps[i] })
				_, err = transports.ResolveMuxProducer(bps, resumer)
			case 3:
				_, err = transports.NewWebsocketProducer(bad, resumer)
			}
		}
	}
	if !within(patience, call) {
		c.Violate("stuck", "%s: no answer about %q, token %q within %v", what, bad, tok, patience)
		return
	}
	if err == nil {
		c.Violate("accepted", "%s (call %d): %q, topics %v, token %q gives no error", what, where, bad, topics, tok)
	}
	c.Count("refused_"+what, 1)
	c.Distinct(what, where, bad, tok)
	c.Sample("%s %q %q: %v", what, bad, tok, err)
}

// c32start: consumers of topics that don't exist do not start; those beside
// them in a mux do.
func c32start(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	cl := fakekafka.New(1 + R.Intn(2))
	defer cl.Close()
	s := newSchema(c, g)
	mkTopics(cl, s, R, nil)
	defer retire(cl, s)
	w := newWorld(c, g, s, 1+R.Intn(5), 0, 3)
	newFeed(c, cl, s).blocks(w.blocks, R, 0)
	cfg := w.cfg(128)
	missing := listed(R, s)
	def := s.Default
	if R.Intn(2) == 0 {
		missing = []string{s.Default + "-absent"}
		def = missing[0]
	} else {
		missing = append(missing, s.Default+"-absent")
		R.Shuffle(len(missing), func(i, j int) { missing[i], missing[j] = missing[j], missing[i] })
	}
	var bps []transports.BrokerParams
	for k := 1 + R.Intn(2); k > 0; k-- {
		bps = append(bps, transports.BrokerParams{URL: consumerURL(cl, R), DefaultTopic: def, Topics: missing, Rollback: -1})
	}
	works := R.Intn(2) == 0
	if works {
		bps = append(bps, transports.BrokerParams{URL: consumerURL(cl, R), DefaultTopic: s.Default, Topics: listed(R, s), Rollback: -1})
		R.Shuffle(len(bps), func(i, j int) { bps[i], bps[j] = bps[j], bps[i] })
	}
	var cs transports.Consumer
	var err error
	if len(bps) == 1 && R.Intn(2) == 0 {
		cs, err = transports.ResolveConsumer(bps[0].URL, def, missing, nil, -1, cfg)
	} else {
		cs, err = transports.ResolveMuxConsumer(bps, nil, cfg)
	}
	if err != nil {
		c.Violate("consumer-error", "the brokers are there: %v", err)
		return
	}
	a := newApp(c, w, "app", cfg)
	a.attach(cs, 10)
	if !within(patience, func() { err = cs.Start() }) {
		c.Violate("start-stuck", "Start on topics %v did not return within %v", missing, patience)
		return
	}
	switch {
	case works && err != nil:
		c.Violate("start-error", "one of %d works: %v", len(bps), err)
	case works:
		if !a.await(w.heaviest(), patience) {
			c.Violate("not-converged", "beside consumers that could not start: the head is %s, expected %s", a.nm(a.tip()), a.nm(w.heaviest().Hash))
		}
	case err == nil:
		c.Violate("started", "Start on topics %v, of which one does not exist, gives no error", missing)
	}
	a.detach()
	closeConsumer(c, cs)
	if !wait(patience, func() bool { return cl.Conns() == 0 }) {
		c.Violate("connections", "%d connections are left by a consumer of topics %v, closed", cl.Conns(), missing)
	}
	c.Count("start_refused", 1)
	c.Distinct(works, len(bps), len(missing), len(w.blocks))
	c.Sample("%d consumers, %d topics, one absent (another works: %v): %v", len(bps), len(missing), works, err)
}
