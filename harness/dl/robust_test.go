//go:build go1.21

package dl

import (
	"fmt"
	"math/rand"

	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

func init() { registry["C19"] = c19 }

var overlong = []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}

// junk draws a message that is not a well-formed part of any block.
func junk(R *rand.Rand, g *core.Gen, units []*unit) (*core.Msg, string) {
	u := units[R.Intn(len(units))]
	h := u.b.Hash
	if R.Intn(4) == 0 {
		h = g.NewHash('J')
	}
	raw := func(n int) []byte {
		b := make([]byte, n)
		R.Read(b)
		return b
	}
	sub := g.NewHash('K')
	n := 0
	real := false
	if len(u.b.Subs) > 0 && R.Intn(4) > 0 {
		s := u.b.Subs[R.Intn(len(u.b.Subs))]
		sub = s.ID
		h = u.b.Hash
		real = true
		for _, m := range u.msgs {
			if m.K[0] == core.TSubHeader && string(m.K[33:]) == string(sub[:]) {
				v, _ := core.DecodeInt(m.V)
				n = int(v)
			}
		}
	}
	rec := (&core.SpecSub{Updates: map[string][]byte{"junk": []byte("junk")}, Delete: []string{"junk2"}}).Encode(nil)
	m := func(k, v []byte) *core.Msg { return &core.Msg{K: k, V: v, Src: "junk", Off: int64(R.Intn(1000))} }
	kind := R.Intn(14)
	if (kind == 5 || kind == 6) && real && !u.seen[string(core.Key(core.TBatch, h[:]))] {
		kind = 10 // it would stand in for the real one while the header is awaited
	}
	if kind == 13 && !(real && n > 0 && u.seen[string(core.Key(core.TBatch, h[:]))] && u.seen[string(core.Key(core.TSubHeader, h[:], sub[:]))]) {
		kind = 4 // as above
	}
	switch kind {
	case 0:
		return m(nil, raw(R.Intn(9))), "empty key"
	case 1:
		return m(append([]byte{byte(R.Intn(8))}, raw(R.Intn(32))...), raw(R.Intn(20))), "short key"
	case 2:
		return m(append([]byte{byte(R.Intn(7))}, h[:R.Intn(32)]...), raw(R.Intn(20))), "cut hash"
	case 3:
		return m(core.Key(byte(7+R.Intn(249)), h[:], raw(R.Intn(40))), raw(R.Intn(20))), "unknown type"
	case 4:
		if R.Intn(2) == 0 {
			return m(core.Key(core.TSubHeader, h[:], sub[1:]), core.PutLong(nil, int64(R.Intn(n+1)))), "batch id without its first byte in sub-batch header"
		}
		return m(core.Key(core.TSubHeader, h[:], sub[:R.Intn(32)]), core.PutLong(nil, int64(R.Intn(5)))), "short batch id in sub-batch header"
	case 5:
		return m(core.Key(core.TSubHeader, h[:], sub[:]), overlong), fmt.Sprintf("undecodable sub-batch counter (real %v)", real)
	case 6:
		return m(core.Key(core.TSubHeader, h[:], sub[:]), core.PutLong(nil, int64(-1-R.Intn(100)))), fmt.Sprintf("negative sub-batch counter (real %v)", real)
	case 7:
		return m(core.Key(core.TSubMsg, h[:], sub[:R.Intn(32)]), rec), "short batch id in sub-batch message"
	case 8:
		return m(core.Key(core.TSubMsg, h[:], sub[:], overlong), rec), "undecodable sub-batch index"
	case 9:
		return m(core.Key(core.TSubMsg, h[:], sub[:], core.PutLong(nil, int64(-1-R.Intn(100)))), rec), "negative sub-batch index"
	case 10:
		return m(core.Key(core.TSubMsg, h[:], sub[:], core.PutLong(nil, int64(n+R.Intn(3)))), rec), fmt.Sprintf("sub-batch index out of range (real %v)", real)
	case 13:
		return m(core.Key(core.TSubMsg, h[:], sub[:], core.PutLong(nil, int64(R.Intn(n)))), overlong), "undecodable sub-batch message"
	case 11:
		return m(core.Key(core.TReorg, h[:]), overlong), "undecodable reorg marker"
	default:
		return m(core.Key(core.TBatch, h[:]), overlong), "undecodable header"
	}
}

// surplus draws a message whose parts are all well-formed, but which no header
// announced: under no prefix of the block, or under one of which everything
// announced has been delivered.
func surplus(R *rand.Rand, r *mpRig) (*core.Msg, string) {
	u := r.units[R.Intn(len(r.units))]
	h := u.b.Hash
	t := []byte{core.TBatchMsg, core.TBatchDelete}[R.Intn(2)]
	m := func(p string) *core.Msg {
		return &core.Msg{K: core.Key(t, h[:], []byte(p)), V: []byte("surplus"), Src: "junk"}
	}
	if u.seen[string(core.Key(core.TBatch, h[:]))] && !u.done && R.Intn(4) > 0 {
		left, have := map[string]int{}, map[string]bool{}
		for k := range u.need {
			p, err := core.ParseKey([]byte(k))
			if err != nil || p.Type != core.TBatchMsg && p.Type != core.TBatchDelete {
				continue
			}
			have[p.Path] = true
			pre, _ := r.conf.schema.Match(p.Path)
			if _, ok := left[pre]; !ok {
				left[pre] = 0
			}
			if !u.seen[k] {
				left[pre]++
			}
		}
		cand := []string{}
		for _, m := range u.msgs {
			p, _ := core.ParseKey(m.K)
			pre, _ := r.conf.schema.Match(p.Path)
			if n, ok := left[pre]; ok && n == 0 && pre != "" {
				cand = append(cand, pre)
			}
		}
		if len(cand) > 0 {
			pre := cand[R.Intn(len(cand))]
			path := pre + []string{"", "zz-surplus", "zz/surplus", "/"}[R.Intn(4)]
			if _, topic := r.conf.schema.Match(path); !have[path] && topic != "" {
				return m(path), fmt.Sprintf("message under the exhausted prefix %q", pre)
			}
		}
	}
	return m("zz-" + r.g.NewHash('Z').String()), "message under no prefix of the block"
}

// C19: malformed messages neither stop the consumer nor change its blocks.
func c19(run *core.Run) {
	run.Cases("junk", run.Pick(12000, 250000), func(c *core.C) {
		g := core.NewGen(c.R, uint64(c.Rnd))
		conf := mpConf{schema: g.Schema("def"), track: core.All, th: 64, spec: c.R.Intn(3) == 0, blocks: 1 + c.R.Intn(5), size: 6}
		r := buildRig(c, conf)
		reorgs := make(chan map[int64]types.Hash, 64)
		r.mp.SubscribeReorgs(reorgs)
		rate := 2 + c.R.Intn(4)
		kinds := 0
		throw := func() {
			m, what := junk(c.R, r.g, r.units)
			if c.R.Intn(4) == 0 {
				m, what = surplus(c.R, r)
			}
			c.Tracef("junk: %s key=%x value=%x", what, m.K, m.V)
			r.mp.ProcessMessage(m) // an error is fine
			c.Count("malformed", 1)
			kinds++
			for len(r.ch) > 0 {
				pb := <-r.ch
				c.Violate("junk-emitted", "%s made block %x come out", what, pb.Hash[24:])
			}
			for len(reorgs) > 0 {
				<-reorgs
				c.Violate("junk-reorg", "%s announced a reorg", what)
			}
		}
		for _, d := range r.schedule(true) {
			for c.R.Intn(rate) == 0 {
				throw()
			}
			r.feed(d.u, d.m)
			if c.Bad() {
				break
			}
		}
		for i := 0; i < 3; i++ {
			throw()
		}
		r.finish()
		c.Sample("%d blocks, %d messages, %d malformed", len(r.units), r.n, kinds)
	})
}
