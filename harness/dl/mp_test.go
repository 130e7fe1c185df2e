//go:build go1.21

// Monitors over the block assembler (messages in, completed blocks out).
package dl

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/big"
	"regexp"
	"testing"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

var registry = map[string]func(*core.Run){}

func TestCheck(t *testing.T) { core.Main(t, registry) }

func newMP(th int64, res []*regexp.Regexp, panicOnFail bool) (*delivery.MessageProcessor, chan *delivery.PendingBatch) {
	mp := delivery.NewMessageProcessor(&delivery.ConsumerConfig{ReorgThreshold: th, TrackedPrefixes: res, FailedReconstructPanic: panicOnFail})
	ch := make(chan *delivery.PendingBatch, 4096)
	mp.Subscribe(ch)
	return mp, ch
}

// unit is a block with its produced messages.
type unit struct {
	b    *core.Block
	msgs []*core.Msg // first-producer stream in produced order
	alts []*core.Msg // an independent second producer's stream
	need map[string]bool
	seen map[string]bool
	done bool
	at   int // completion index
	pb   *delivery.PendingBatch
	snap snapshot
}

type snapshot struct {
	vals map[string][]byte
	dels map[string]struct{}
}

func snap(pb *delivery.PendingBatch) snapshot {
	s := snapshot{map[string][]byte{}, map[string]struct{}{}}
	for k, v := range pb.Values {
		s.vals[k] = append([]byte{}, v...)
	}
	for k := range pb.Deletes {
		s.dels[k] = struct{}{}
	}
	return s
}

// needKeys computes which message keys a consumer tracking res needs before
// the block is complete.
func needKeys(b *core.Block, s core.Schema, res []*regexp.Regexp, msgs []*core.Msg) (map[string]bool, error) {
	need := map[string]bool{}
	subs := map[types.Hash]string{}
	for _, x := range b.Subs {
		subs[x.ID] = x.Path
	}
	for _, m := range msgs {
		p, err := core.ParseKey(m.K)
		if err != nil {
			return nil, err
		}
		switch p.Type {
		case core.TBatch:
			need[string(m.K)] = true
		case core.TBatchMsg, core.TBatchDelete:
			pre, _ := s.Match(p.Path)
			if core.Tracks(res, pre) {
				need[string(m.K)] = true
			}
		case core.TSubHeader, core.TSubMsg:
			if core.Tracks(res, subs[p.Sub]) {
				need[string(m.K)] = true
			}
		}
	}
	return need, nil
}

type mpConf struct {
	schema   core.Schema
	track    []*regexp.Regexp
	th       int64
	spec     bool // messages encoded by the independent codec
	blocks   int
	size     int
	strictFR bool
	binary   bool
}

type mpRig struct {
	c     *core.C
	conf  mpConf
	g     *core.Gen
	units []*unit
	byH   map[types.Hash]*unit
	mp    *delivery.MessageProcessor
	ch    chan *delivery.PendingBatch
	order []types.Hash // completion order
	fp    uint64
	n     int
	offs  map[string]int64
}

func buildRig(c *core.C, conf mpConf) *mpRig {
	r := &mpRig{c: c, conf: conf, g: core.NewGen(c.R, uint64(c.Rnd)), byH: map[types.Hash]*unit{}, offs: map[string]int64{}}
	r.g.TextKeys = !conf.binary
	r.g.Wide = true
	p1, err := delivery.NewProducer(conf.schema.Default, conf.schema.Topics)
	if err != nil {
		c.Violate("producer-new", "NewProducer(%v): %v", conf.schema, err)
		c.Abort()
	}
	p2, err := delivery.NewProducer(conf.schema.Default, conf.schema.Topics)
	if err != nil {
		c.Violate("producer-new", "NewProducer(%v): %v", conf.schema, err)
		c.Abort()
	}
	for i := 0; i < conf.blocks; i++ {
		b := r.g.Block(conf.size)
		u := &unit{b: b, seen: map[string]bool{}, at: -1}
		if conf.spec {
			u.msgs = core.SpecMessages(b, conf.schema, c.R)
			u.alts = u.msgs
		} else {
			bu, err := core.Produce(p1, b)
			if err != nil {
				c.Violate("produce-error", "producing %v: %v", b, err)
				c.Abort()
			}
			u.msgs = bu.Flatten(r.offs)
			bu2, err := core.Produce(p2, b)
			if err != nil {
				c.Violate("produce-error", "producing %v: %v", b, err)
				c.Abort()
			}
			u.alts = bu2.Flatten(map[string]int64{})
			for _, m := range u.alts {
				m.Src = "p2-" + m.Src
			}
		}
		u.need, err = needKeys(b, conf.schema, conf.track, u.msgs)
		if err != nil {
			c.Violate("bad-key", "producer made an unparseable key for %v: %v", b, err)
			c.Abort()
		}
		r.units = append(r.units, u)
		r.byH[b.Hash] = u
	}
	r.mp, r.ch = newMP(conf.th, conf.track, conf.strictFR)
	return r
}

func describe(m *core.Msg) string {
	p, err := core.ParseKey(m.K)
	if err != nil {
		return fmt.Sprintf("unparseable %x", m.K)
	}
	n := []string{"batch", "subhdr", "submsg", "set", "del", "reorg", "reorgdone"}
	return fmt.Sprintf("%s block=%x.. sub=%x idx=%d path=%q len(v)=%d src=%s@%d", n[p.Type], p.Block[24:], p.Sub[28:], p.Index, p.Path, len(m.V), m.Src, m.Off)
}

// feed delivers one message and checks what comes out.
func (r *mpRig) feed(u *unit, m *core.Msg) {
	c := r.c
	was := u.done
	newly := false
	if !was {
		u.seen[string(m.K)] = true
		complete := true
		for k := range u.need {
			if !u.seen[k] {
				complete = false
				break
			}
		}
		newly = complete
	}
	c.Tracef("deliver %s", describe(m))
	if err := r.mp.ProcessMessage(m); err != nil {
		c.Violate("process-error", "ProcessMessage(%s) returned %v", describe(m), err)
	}
	r.n++
	h := fnv.New64a()
	fmt.Fprintf(h, "%d", r.fp)
	h.Write(m.K)
	r.fp = h.Sum64()
	var got []*delivery.PendingBatch
	for {
		select {
		case pb := <-r.ch:
			got = append(got, pb)
			continue
		default:
		}
		break
	}
	for _, pb := range got {
		o := r.byH[pb.Hash]
		if o == nil {
			c.Violate("unknown-block", "emitted a block never produced: %x", pb.Hash[:])
			continue
		}
		if o != u {
			c.Violate("wrong-block-emitted", "message for block %x made block %x come out", u.b.Hash[24:], pb.Hash[24:])
		}
		if o.done || (o == u && len(got) > 1) {
			c.Violate("emitted-twice", "block %x emitted again after %d completions", pb.Hash[24:], len(r.order)-o.at)
			continue
		}
		if !newly {
			missing := []string{}
			for k := range o.need {
				if !o.seen[k] {
					missing = append(missing, fmt.Sprintf("%x", k))
				}
			}
			c.Violate("emitted-early", "block %x emitted while %d of its %d tracked messages are undelivered", pb.Hash[24:], len(missing), len(o.need))
		}
		if d := core.DiffBatch(pb, o.b, r.conf.schema, r.conf.track); d != "" {
			c.Violate("content", "block %x emitted with wrong content: %s", pb.Hash[24:], d)
		}
		o.done = true
		o.pb = pb
		o.snap = snap(pb)
		o.at = len(r.order)
		r.order = append(r.order, pb.Hash)
		c.Count("emissions", 1)
	}
	if newly && !u.done {
		c.Violate("not-emitted", "block %x has all of its %d tracked messages but was not emitted (why: %s)", u.b.Hash[24:], len(u.need), r.mp.WhyNotReady(u.b.Hash))
		u.done = true
		u.at = len(r.order)
		r.order = append(r.order, u.b.Hash)
	}
}

func (r *mpRig) finish() {
	c := r.c
	for _, u := range r.units {
		if !u.done {
			all := true
			for k := range u.need {
				all = all && u.seen[k]
			}
			if all {
				c.Violate("not-emitted", "block %x never emitted", u.b.Hash[24:])
			}
			continue
		}
		if u.pb != nil {
			if d := core.DiffContent(u.pb.Values, u.pb.Deletes, u.snap.vals, u.snap.dels); d != "" {
				c.Violate("mutated-after-emission", "block %x changed after it was emitted: %s", u.b.Hash[24:], d)
			}
		}
	}
	c.Count("messages", r.n)
	c.Distinct(r.fp)
}

type dmsg struct {
	u *unit
	m *core.Msg
}

// schedule draws a delivery order containing every message at least once.
func (r *mpRig) schedule(dups bool) []dmsg {
	R := r.c.R
	mode := R.Intn(7)
	var out []dmsg
	switch mode {
	case 0, 1, 2: // global random permutation
		for _, u := range r.units {
			for _, m := range u.msgs {
				out = append(out, dmsg{u, m})
			}
		}
		R.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	case 3: // reversed: the header last for each block
		for i := len(r.units) - 1; i >= 0; i-- {
			u := r.units[i]
			ms := []dmsg{}
			for j := len(u.msgs) - 1; j >= 0; j-- {
				ms = append(ms, dmsg{u, u.msgs[j]})
			}
			for j := range ms { // header last
				if ms[j].m.K[0] == core.TBatch {
					ms = append(append(append([]dmsg{}, ms[:j]...), ms[j+1:]...), ms[j])
					break
				}
			}
			out = append(out, ms...)
		}
	default: // several in-order streams merged at random (partitions)
		np := 1 + R.Intn(4)
		parts := make([][]dmsg, np)
		pin := map[string]int{}
		for _, u := range r.units {
			for _, m := range u.msgs {
				k := m.Src
				if mode == 5 {
					k = fmt.Sprint(m.Src, R.Intn(2))
				}
				if mode == 6 {
					k = fmt.Sprint(m.K[0])
				}
				p, ok := pin[k]
				if !ok {
					p = R.Intn(np)
					pin[k] = p
				}
				parts[p] = append(parts[p], dmsg{u, m})
			}
		}
		for {
			nz := []int{}
			for i, p := range parts {
				if len(p) > 0 {
					nz = append(nz, i)
				}
			}
			if len(nz) == 0 {
				break
			}
			i := nz[R.Intn(len(nz))]
			n := 1 + R.Intn(6)
			if n > len(parts[i]) {
				n = len(parts[i])
			}
			out = append(out, parts[i][:n]...)
			parts[i] = parts[i][n:]
		}
	}
	if dups && len(out) > 0 {
		switch R.Intn(4) {
		case 0: // immediate repeats
			o2 := []dmsg{}
			for _, d := range out {
				o2 = append(o2, d)
				for R.Intn(3) == 0 {
					o2 = append(o2, d)
				}
			}
			out = o2
		case 1: // a second producer's stream merged in
			alt := []dmsg{}
			for _, u := range r.units {
				for _, m := range u.alts {
					alt = append(alt, dmsg{u, m})
				}
			}
			if R.Intn(2) == 0 {
				R.Shuffle(len(alt), func(i, j int) { alt[i], alt[j] = alt[j], alt[i] })
			}
			o2 := []dmsg{}
			for len(out)+len(alt) > 0 {
				if len(alt) == 0 || (len(out) > 0 && R.Intn(2) == 0) {
					o2 = append(o2, out[0])
					out = out[1:]
				} else {
					o2 = append(o2, alt[0])
					alt = alt[1:]
				}
			}
			out = o2
		case 2: // random earlier messages again at random places
			n := len(out)
			for i := 0; i < n; i++ {
				d := out[R.Intn(len(out))]
				at := R.Intn(len(out) + 1)
				out = append(out, dmsg{})
				copy(out[at+1:], out[at:])
				out[at] = d
			}
		case 3: // replays of a whole window
			for k := 1 + R.Intn(3); k > 0; k-- {
				i := R.Intn(len(out))
				j := i + 1 + R.Intn(len(out)-i)
				win := append([]dmsg{}, out[i:j]...)
				rest := append([]dmsg{}, out[j:]...)
				out = append(append(out[:j:j], win...), rest...)
			}
		}
	}
	return out
}

func init() {
	registry["C01"] = c01
	registry["C02"] = c02
	registry["C03"] = c03
	registry["C04"] = c04
}

// filterSigs: each property reports its own kind of failure; a content check
// is shared by all of them.
func assembly(c *core.C, conf mpConf, dups bool) *mpRig {
	r := buildRig(c, conf)
	sch := r.schedule(dups)
	for _, d := range sch {
		r.feed(d.u, d.m)
	}
	r.finish()
	c.Count("schedules", 1)
	if conf.blocks > 1 {
		c.Count("interleaved", 1)
	}
	c.Sample("schema=%v blocks=%v schedule=%d messages", conf.schema, r.units[0].b, len(sch))
	return r
}

// C01: reassembly is faithful whatever the order, duplication, interleaving.
func c01(run *core.Run) {
	n := run.Pick(24000, 400000)
	run.Cases("assemble", n, func(c *core.C) {
		g := core.NewGen(c.R, 1)
		conf := mpConf{schema: g.Schema("def"), track: core.All, th: 64, blocks: 1 + c.R.Intn(5), size: 2 + c.R.Intn(10), strictFR: c.R.Intn(2) == 0, spec: c.R.Intn(4) == 0, binary: c.R.Intn(2) == 0}
		assembly(c, conf, c.R.Intn(4) != 0)
	})
	run.Cases("big", run.Pick(80, 800), func(c *core.C) {
		g := core.NewGen(c.R, 1)
		conf := mpConf{schema: g.Schema("def"), track: core.All, th: 64, blocks: 1 + c.R.Intn(3), size: 100 + c.R.Intn(400), spec: c.R.Intn(4) == 0}
		assembly(c, conf, c.R.Intn(4) != 0)
	})
	run.Cases("flood", run.Pick(60, 600), floodCase)
	permutations(run, true)
}

// floodCase: hundreds of blocks, or thousands of messages of one, are on
// their way before any header.
func floodCase(c *core.C) {
	R := c.R
	g := core.NewGen(R, 1)
	conf := mpConf{schema: g.Schema("def"), track: core.All, th: 512, blocks: 80 + R.Intn(250), size: 2 + R.Intn(3), spec: R.Intn(4) == 0}
	if c.I%3 == 2 {
		conf.blocks, conf.size = 1+R.Intn(2), 3000+R.Intn(4000)
	}
	r := buildRig(c, conf)
	var early, late []dmsg
	for _, u := range r.units {
		for _, m := range u.msgs {
			if m.K[0] == core.TBatch {
				late = append(late, dmsg{u, m})
			} else {
				early = append(early, dmsg{u, m})
			}
		}
	}
	if R.Intn(3) > 0 {
		R.Shuffle(len(early), func(i, j int) { early[i], early[j] = early[j], early[i] })
	}
	if R.Intn(2) == 0 {
		R.Shuffle(len(late), func(i, j int) { late[i], late[j] = late[j], late[i] })
	}
	for _, d := range append(early, late...) {
		r.feed(d.u, d.m)
	}
	for _, u := range r.units {
		if !u.done && !c.Bad() {
			c.Violate("not-emitted", "block %x complete but not emitted", u.b.Hash[24:])
		}
	}
	r.finish()
	c.Count("schedules", 1)
	c.Max("max_messages_before_headers", int64(len(early)))
	c.Sample("schema=%v blocks=%d messages ahead of %d headers: %d", conf.schema, len(r.units), len(late), len(early))
}

// permutations enumerates every delivery order of small blocks.
func permutations(run *core.Run, withDup bool) {
	run.Cases("permute", run.Pick(64, 320), func(c *core.C) {
		g := core.NewGen(c.R, 1)
		s := core.Schema{Default: "def", Topics: map[string]string{"foo/": "t1", "flat:": "t2", "bar/[^/]+/baz/": "t1", "/lead/": "t3"}}
		var b *core.Block
		var msgs []*core.Msg
		for {
			b = &core.Block{Number: 3, Hash: g.NewHash('B'), Parent: g.NewHash('P'), Weight: big.NewInt(9), Updates: map[string][]byte{}, Deletes: map[string]struct{}{}}
			val := func() []byte { return []byte(fmt.Sprintf("%d", c.R.Intn(100)))[:c.R.Intn(2)] }
			pre := []string{"foo/", "flat:", "bar/x/baz/", "/lead/", "misc/"}
			for i := 0; i < 1+c.R.Intn(3); i++ {
				b.Updates[pre[c.R.Intn(5)]+fmt.Sprint("u", i)] = val()
			}
			if c.R.Intn(2) == 0 {
				b.Deletes[pre[c.R.Intn(5)]+"d"] = struct{}{}
			}
			if c.R.Intn(3) > 0 {
				sb := core.Sub{ID: g.NewHash('S'), Path: "state/", Updates: map[string][]byte{}}
				for i := c.R.Intn(3); i > 0; i-- {
					sb.Updates[fmt.Sprint("state/", i)] = val()
				}
				if c.R.Intn(4) == 0 {
					sb.Deletes = []string{"state/gone"}
				}
				b.Subs = append(b.Subs, sb)
			}
			p, err := delivery.NewProducer("def", s.Topics)
			if err != nil {
				c.Violate("producer-new", "%v", err)
				return
			}
			bu, err := core.Produce(p, b)
			if err != nil {
				c.Violate("produce-error", "%v", err)
				return
			}
			msgs = bu.Flatten(map[string]int64{})
			if len(msgs) >= 3 && len(msgs) <= 6 {
				break
			}
		}
		if withDup && len(msgs) <= 5 { // one message twice
			msgs = append(msgs, msgs[c.R.Intn(len(msgs))])
		}
		need, err := needKeys(b, s, core.All, msgs)
		if err != nil {
			c.Violate("bad-key", "%v", err)
			return
		}
		idx := make([]int, len(msgs))
		for i := range idx {
			idx[i] = i
		}
		perms := 0
		var rec func(k int)
		rec = func(k int) {
			if c.Bad() {
				return
			}
			if k == len(idx) {
				perms++
				r := &mpRig{c: c, conf: mpConf{schema: s, track: core.All}, byH: map[types.Hash]*unit{}}
				u := &unit{b: b, need: need, seen: map[string]bool{}, at: -1}
				r.byH[b.Hash] = u
				r.units = []*unit{u}
				r.mp, r.ch = newMP(4, core.All, true)
				for _, i := range idx {
					r.feed(u, msgs[i])
				}
				r.finish()
				return
			}
			for i := k; i < len(idx); i++ {
				idx[k], idx[i] = idx[i], idx[k]
				rec(k + 1)
				idx[k], idx[i] = idx[i], idx[k]
			}
		}
		rec(0)
		c.Count("permutations", perms)
		c.Evals(perms - 1)
	})
}

// C02: a block comes out exactly with its completing message.
func c02(run *core.Run) {
	n := run.Pick(24000, 400000)
	run.Cases("complete", n, func(c *core.C) {
		g := core.NewGen(c.R, 1)
		conf := mpConf{schema: g.Schema("def"), track: core.All, th: 64, blocks: 1 + c.R.Intn(4), size: 1 + c.R.Intn(8), spec: c.R.Intn(3) == 0}
		if c.R.Intn(3) == 0 {
			conf.track = tracking(c)
		}
		r := buildRig(c, conf)
		sch := r.schedule(true)
		// withhold one needed message of some block: it must never come out
		w := r.units[c.R.Intn(len(r.units))]
		keys := []string{}
		for _, m := range w.msgs {
			if w.need[string(m.K)] {
				keys = append(keys, string(m.K))
			}
		}
		held := keys[c.R.Intn(len(keys))]
		for _, d := range sch {
			if d.u == w && string(d.m.K) == held {
				continue
			}
			r.feed(d.u, d.m)
		}
		for _, u := range r.units {
			if u != w && !u.done {
				c.Violate("not-emitted", "block %x complete but not emitted", u.b.Hash[24:])
			}
		}
		if w.done && !c.Bad() {
			c.Violate("emitted-early", "block emitted without message %x", held)
		}
		c.Count("withheld", 1)
		for _, d := range sch {
			if d.u == w && string(d.m.K) == held {
				r.feed(d.u, d.m)
				break
			}
		}
		r.finish()
		c.Sample("schema=%v withheld=%x of %d", conf.schema, held, len(keys))
	})
	run.Cases("flood", run.Pick(40, 400), floodCase)
	permutations(run, false)
}

// C03: exactly once under redelivery within the retention window.
func c03(run *core.Run) {
	run.Cases("mixed", run.Pick(6000, 100000), mixedCase)
	run.Cases("redeliver", run.Pick(6000, 100000), func(c *core.C) {
		g := core.NewGen(c.R, 1)
		th := int64(1 + c.R.Intn(8))
		conf := mpConf{schema: g.Schema("def"), track: core.All, th: th, blocks: int(th)*2 + 2 + c.R.Intn(12), size: 1 + c.R.Intn(4)}
		if c.R.Intn(4) == 0 {
			conf.track = tracking(c)
		}
		r := buildRig(c, conf)
		recent := func() []*unit { // completed within the retention window
			lo := len(r.order) - int(2*th)
			if lo < 0 {
				lo = 0
			}
			out := []*unit{}
			for _, h := range r.order[lo:] {
				out = append(out, r.byH[h])
			}
			return out
		}
		redo := 0
		for i, u := range r.units {
			var todo []dmsg
			for _, m := range u.msgs {
				todo = append(todo, dmsg{u, m})
			}
			c.R.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
			for _, d := range todo {
				r.feed(d.u, d.m)
				if c.R.Intn(4) == 0 {
					if rs := recent(); len(rs) > 0 {
						k := c.R.Intn(len(rs))
						if c.R.Intn(3) == 0 {
							k = 0 // the oldest one still retained
						}
						ms := rs[k].msgs
						if c.R.Intn(2) == 0 {
							ms = rs[k].alts
						}
						if c.R.Intn(2) == 0 {
							m := ms[c.R.Intn(len(ms))]
							r.feed(rs[k], m)
						} else {
							for _, m := range ms {
								r.feed(rs[k], m)
							}
						}
						redo++
					}
				}
			}
			_ = i
			// the whole retained window again, from the other producer
			if c.R.Intn(5) == 0 {
				for _, x := range recent() {
					for _, m := range x.alts {
						r.feed(x, m)
						redo++
					}
				}
			}
		}
		r.finish()
		c.Count("redeliveries", redo)
		c.Sample("threshold=%d blocks=%d redeliveries=%d messages=%d", th, conf.blocks, redo, r.n)
	})
}

// mixedCase: blocks arrive in messages, whole (as from a websocket), or begun
// in messages and then whole; what was emitted since the last reorg marker is
// delivered again in either way.
func mixedCase(c *core.C) {
	R := c.R
	g := core.NewGen(R, 1)
	th := int64(1 + R.Intn(6))
	r := buildRig(c, mpConf{schema: g.Schema("def"), track: core.All, th: th, blocks: int(th)*4 + 4 + R.Intn(12), size: 1 + R.Intn(4)})
	anns := make(chan *delivery.Waiter, 4096)
	r.mp.SubscribeWaiters(anns)
	reorgs := make(chan map[int64]types.Hash, 256)
	r.mp.SubscribeReorgs(reorgs)
	var since []*unit // emitted since the last marker
	redo, whole, markers := 0, 0, 0
	drain := func(u *unit, what string, expect bool) {
		n := 0
		for len(r.ch) > 0 {
			pb := <-r.ch
			n++
			if pb.Hash != u.b.Hash {
				c.Violate("wrong-block-emitted", "%s for block %x made block %x come out", what, u.b.Hash[24:], pb.Hash[24:])
				continue
			}
			if d := core.DiffBatch(pb, u.b, r.conf.schema, core.All); d != "" {
				c.Violate("content", "block %x emitted with wrong content: %s", pb.Hash[24:], d)
			}
			since = append(since, u)
			u.done = true
			c.Count("emissions", 1)
		}
		if n > 1 || n == 1 && !expect {
			c.Violate("emitted-twice", "%s made block %x come out %d times (emitted before: %v)", what, u.b.Hash[24:], n, !expect)
		}
		if n == 0 && expect {
			c.Violate("not-emitted", "%s should have made block %x come out", what, u.b.Hash[24:])
			u.done = true
		}
	}
	msg := func(u *unit, m *core.Msg) {
		u.seen[string(m.K)] = true
		all := true
		for k := range u.need {
			all = all && u.seen[k]
		}
		c.Tracef("deliver %s", describe(m))
		expect := all && !u.done
		if err := r.mp.ProcessMessage(m); err != nil {
			c.Violate("process-error", "ProcessMessage(%s) returned %v", describe(m), err)
		}
		r.n++
		drain(u, "a message", expect)
	}
	complete := func(u *unit) {
		vals, dels := u.b.Want(r.conf.schema, core.All)
		c.Tracef("deliver block %x whole", u.b.Hash[24:])
		expect := !u.done
		r.mp.ProcessCompleteBatch(&delivery.PendingBatch{Number: u.b.Number, Hash: u.b.Hash, ParentHash: u.b.Parent, Weight: u.b.Weight, Values: vals, Deletes: dels})
		whole++
		drain(u, "the whole block", expect)
	}
	again := func() {
		lo := len(since) - int(2*th)
		if lo < 0 {
			lo = 0
		}
		rs := since[lo:]
		if len(rs) == 0 {
			return
		}
		u := rs[R.Intn(len(rs))]
		if R.Intn(3) == 0 {
			u = rs[0] // the oldest still retained
		}
		redo++
		switch R.Intn(3) {
		case 0:
			complete(u)
		case 1:
			msg(u, u.msgs[R.Intn(len(u.msgs))])
		default:
			for _, m := range u.alts {
				msg(u, m)
			}
		}
	}
	fp := []interface{}{"mixed", th}
	for _, u := range r.units {
		ms := append([]*core.Msg{}, u.msgs...)
		if R.Intn(2) == 0 {
			R.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		}
		way := R.Intn(3)
		cut := len(ms)
		if way == 1 {
			cut = 0
		} else if way == 2 {
			cut = R.Intn(len(ms) + 1)
		}
		fp = append(fp, len(ms), cut)
		for _, m := range ms[:cut] {
			msg(u, m)
			if R.Intn(4) == 0 {
				again()
			}
		}
		if way > 0 {
			complete(u)
			for _, m := range ms[cut:] {
				if R.Intn(2) == 0 {
					msg(u, m)
				}
			}
		}
		for R.Intn(2) == 0 {
			again()
		}
		if R.Intn(12) == 0 {
			markers++
			since = nil
			h, n := u.b.Hash, u.b.Number&0x3fffffff
			fp = append(fp, "marker")
			var err error
			if R.Intn(2) == 0 {
				err = r.mp.ProcessReorg(n, h)
			} else {
				err = r.mp.ProcessMessage(&core.Msg{K: core.Key(core.TReorg, h[:]), V: core.PutLong(nil, n), Src: "m"})
			}
			if err != nil {
				c.Violate("process-error", "marker: %v", err)
			}
			if len(reorgs) != 1 {
				c.Violate("reorg-notice", "marker for block %x was announced %d times", h[24:], len(reorgs))
			} else if x := <-reorgs; len(x) != 1 || x[n] != h {
				c.Violate("reorg-notice", "marker for block %x was announced as %v", h[24:], x)
			}
		}
	}
	// every retained block once more, in each way
	lo := max(0, len(since)-int(2*th))
	for _, u := range append([]*unit{}, since[lo:]...) {
		complete(u)
		for _, m := range u.alts {
			msg(u, m)
		}
	}
	seen := map[types.Hash]<-chan struct{}{}
	for len(anns) > 0 {
		a := <-anns
		if seen[a.Hash] != nil && markers == 0 {
			c.Violate("announced-twice", "block %x announced to waiters twice", a.Hash[24:])
		}
		seen[a.Hash] = a.WaitCh
	}
	if len(seen) != len(r.units) {
		c.Violate("not-announced", "%d of %d blocks announced to waiters", len(seen), len(r.units))
	}
	c.Count("redeliveries", redo)
	c.Count("whole_blocks", whole)
	c.Count("markers", markers)
	c.Count("messages", r.n)
	c.Distinct(fp...)
	c.Sample("threshold=%d blocks=%d redeliveries=%d whole=%d markers=%d", th, len(r.units), redo, whole, markers)
}

var trackPool = []string{"^foo/", "^bar/", "baz", "^c/", "^/lead", "^anchored/", "^deep/one", "^flat:", "^exact/", "^misc/", "^state/", "sub", "s1", "^$", "/x/$"}

func tracking(c *core.C) []*regexp.Regexp {
	out := []*regexp.Regexp{}
	for i := c.R.Intn(5); i > 0; i-- {
		out = append(out, regexp.MustCompile(trackPool[c.R.Intn(len(trackPool))]))
	}
	return out
}

// C04: a subset of prefixes.
func c04(run *core.Run) {
	run.Cases("subset", run.Pick(16000, 300000), func(c *core.C) {
		g := core.NewGen(c.R, 1)
		conf := mpConf{schema: g.Schema("def"), track: tracking(c), th: 64, blocks: 1 + c.R.Intn(4), size: 2 + c.R.Intn(12), strictFR: c.R.Intn(2) == 0, spec: c.R.Intn(4) == 0}
		r := buildRig(c, conf)
		sch := r.schedule(c.R.Intn(2) == 0)
		// messages outside the tracked set may be missing altogether
		drop := c.R.Intn(3)
		dropped := 0
		for _, d := range sch {
			if !d.u.need[string(d.m.K)] && (drop == 1 || (drop == 2 && c.R.Intn(2) == 0)) {
				dropped++
				continue
			}
			r.feed(d.u, d.m)
		}
		for _, u := range r.units {
			if !u.done {
				c.Violate("not-emitted", "block %x complete for the tracked prefixes but not emitted", u.b.Hash[24:])
			}
			if len(u.need) < len(u.msgs) {
				c.Count("partial_blocks", 1)
			}
		}
		c.Count("untracked_dropped", dropped)
		r.finish()
		c.Sample("track=%v schema=%v dropped=%d of %d", conf.track, conf.schema, dropped, len(sch))
	})
}

var _ = bytes.Equal
