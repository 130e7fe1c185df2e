//go:build go1.21

package dl

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

func init() {
	registry["C05"] = c05
	registry["C24"] = c24
}

// checkHeaderSet compares what AddBlock returned with the block.
func checkAdd(c *core.C, b *core.Block, s core.Schema, out map[string][]delivery.Message) {
	headers := 0
	sets := map[string]int{}
	dels := map[string]int{}
	var hdr *core.SpecBatch
	for topic, ms := range out {
		for _, m := range ms {
			p, err := core.ParseKey(m.Key())
			if err != nil {
				c.Violate("bad-key", "%v", err)
				continue
			}
			if p.Block != b.Hash {
				c.Violate("wrong-block-hash", "message of block %x carries hash %x", b.Hash[24:], p.Block[:])
			}
			switch p.Type {
			case core.TBatch:
				headers++
				if topic != s.Default {
					c.Violate("header-topic", "header sent to topic %q, default is %q", topic, s.Default)
				}
				hdr, err = core.DecodeBatch(m.Value())
				if err != nil {
					c.Violate("bad-header", "header does not decode: %v", err)
					return
				}
			case core.TBatchMsg:
				sets[p.Path]++
				want, ok := b.Updates[p.Path]
				if !ok {
					c.Violate("extra-message", "set message for %q, which is not an update", p.Path)
				} else if !bytes.Equal(want, m.Value()) {
					c.Violate("wrong-value", "%q carries %x, want %x", p.Path, m.Value(), want)
				}
				pre, t := s.Match(p.Path)
				if pre == "" || t != topic {
					c.Violate("wrong-topic", "%q sent to topic %q, declared %q", p.Path, topic, t)
				}
			case core.TBatchDelete:
				dels[p.Path]++
				if _, ok := b.Deletes[p.Path]; !ok {
					c.Violate("extra-message", "delete message for %q, which is not a delete", p.Path)
				}
				if len(m.Value()) != 0 {
					c.Violate("wrong-value", "delete of %q carries a value", p.Path)
				}
				pre, t := s.Match(p.Path)
				if pre == "" || t != topic {
					c.Violate("wrong-topic", "%q sent to topic %q, declared %q", p.Path, topic, t)
				}
			default:
				c.Violate("extra-message", "message type %d from AddBlock", p.Type)
			}
		}
	}
	if headers != 1 || hdr == nil {
		c.Violate("header-count", "%d headers for one block", headers)
		return
	}
	if hdr.Num != b.Number || hdr.Parent != b.Parent || new(big.Int).SetBytes(hdr.Weight).Cmp(b.Weight) != 0 {
		c.Violate("header-fields", "header num=%d parent=%x weight=%x for %v", hdr.Num, hdr.Parent[:], hdr.Weight, b)
	}
	want := map[string]core.SpecUpdate{}
	for k, v := range b.Updates {
		if p, _ := s.Match(k); p != "" {
			u := want[p]
			u.Count++
			want[p] = u
			if sets[k] != 1 {
				c.Violate("message-count", "%d messages for update %q", sets[k], k)
			}
		} else {
			want[k] = core.SpecUpdate{Value: v}
		}
	}
	for k := range b.Deletes {
		if p, _ := s.Match(k); p != "" {
			u := want[p]
			u.Count++
			want[p] = u
			if dels[k] != 1 {
				c.Violate("message-count", "%d messages for delete %q", dels[k], k)
			}
		} else {
			want[k] = core.SpecUpdate{Delete: true}
		}
	}
	for _, x := range b.Subs {
		want[x.Path] = core.SpecUpdate{Subbatch: x.ID}
	}
	for k, w := range want {
		g, ok := hdr.Updates[k]
		if !ok {
			c.Violate("header-entry", "header has no entry %q", k)
		} else if !bytes.Equal(g.Value, w.Value) || g.Count != w.Count || g.Delete != w.Delete || g.Subbatch != w.Subbatch {
			c.Violate("header-entry", "header entry %q is %+v, want %+v", k, g, w)
		}
	}
	for k := range hdr.Updates {
		if _, ok := want[k]; !ok {
			c.Violate("header-entry", "header has unexpected entry %q", k)
		}
	}
	c.Count("headers_checked", 1)
	c.Count("entries_checked", len(want))
}

// checkSend compares what SendBatch returned with the sub-batch.
func checkSend(c *core.C, b *core.Block, x core.Sub, s core.Schema, out map[string][]delivery.Message) {
	_, wt := s.Match(x.Path)
	n := int64(-1)
	idx := map[int64]bool{}
	got := map[string][]byte{}
	gd := map[string]int{}
	for topic, ms := range out {
		if len(ms) > 0 && topic != wt {
			c.Violate("wrong-topic", "sub-batch at %q sent to %q, declared %q", x.Path, topic, wt)
		}
		for _, m := range ms {
			p, err := core.ParseKey(m.Key())
			if err != nil {
				c.Violate("bad-key", "%v", err)
				continue
			}
			if p.Block != b.Hash || p.Sub != x.ID {
				c.Violate("wrong-subbatch", "sub-batch message carries block %x sub %x, want %x %x", p.Block[:], p.Sub[:], b.Hash[:], x.ID[:])
			}
			switch p.Type {
			case core.TSubHeader:
				if n >= 0 {
					c.Violate("header-count", "two headers for one sub-batch")
				}
				if n, err = core.DecodeInt(m.Value()); err != nil {
					c.Violate("bad-header", "sub-batch header: %v", err)
				}
			case core.TSubMsg:
				if idx[p.Index] {
					c.Violate("index-reused", "sub-batch index %d used twice", p.Index)
				}
				idx[p.Index] = true
				su, err := core.DecodeSub(m.Value())
				if err != nil {
					c.Violate("bad-record", "sub-batch record: %v", err)
					continue
				}
				for k, v := range su.Updates {
					if _, dup := got[k]; dup {
						c.Violate("message-count", "%q twice in a sub-batch", k)
					}
					got[k] = v
				}
				for _, d := range su.Delete {
					gd[d]++
				}
			default:
				c.Violate("extra-message", "message type %d from SendBatch", p.Type)
			}
		}
	}
	if n != int64(len(idx)) {
		c.Violate("header-count", "sub-batch header announces %d items, %d sent", n, len(idx))
	}
	for i := int64(0); i < n; i++ {
		if !idx[i] {
			c.Violate("index-missing", "sub-batch index %d of %d missing", i, n)
		}
	}
	dels := map[string]struct{}{}
	for d := range gd {
		dels[d] = struct{}{}
	}
	wd := map[string]struct{}{}
	for _, d := range x.Deletes {
		wd[d] = struct{}{}
	}
	if d := core.DiffContent(got, dels, x.Updates, wd); d != "" {
		c.Violate("content", "sub-batch content: %s", d)
	}
	c.Count("subbatches_checked", 1)
}

// C05: the producer's accounting, routing and refusals.
func c05(run *core.Run) {
	run.Cases("account", run.Pick(24000, 400000), func(c *core.C) {
		g := core.NewGen(c.R, uint64(c.Rnd))
		g.Wide = true
		s := g.Schema("def")
		p, err := delivery.NewProducer(s.Default, s.Topics)
		if err != nil {
			c.Violate("producer-new", "NewProducer(%v): %v", s, err)
			return
		}
		type pend struct {
			b *core.Block
			x core.Sub
		}
		var ps []pend
		sent := []pend{}
		fp := ""
		for i := 1 + c.R.Intn(5); i > 0; i-- {
			b := g.Block(1 + c.R.Intn(12))
			out, err := p.AddBlock(b.Number, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, b.Batches())
			if err != nil {
				c.Violate("add-error", "AddBlock(%v): %v", b, err)
				return
			}
			checkAdd(c, b, s, out)
			fp += fmt.Sprint(len(b.Updates), len(b.Deletes), len(b.Subs), ";")
			for _, x := range b.Subs {
				ps = append(ps, pend{b, x})
			}
			for len(ps) > 0 && c.R.Intn(2) == 0 {
				k := c.R.Intn(len(ps))
				x := ps[k]
				ps = append(ps[:k], ps[k+1:]...)
				out, err := p.SendBatch(x.x.ID, x.x.Deletes, x.x.Updates)
				if err != nil {
					c.Violate("send-error", "SendBatch of an announced id: %v", err)
					continue
				}
				checkSend(c, x.b, x.x, s, out)
				sent = append(sent, x)
			}
			// refusals
			if out, err := p.SendBatch(g.NewHash('?'), nil, map[string][]byte{"a": nil}); !errors.Is(err, delivery.ErrUnknownBatch) || len(out) > 0 {
				c.Violate("unknown-accepted", "SendBatch of an unknown id returned %d topics, %v", len(out), err)
			}
			if len(sent) > 0 {
				x := sent[c.R.Intn(len(sent))]
				if out, err := p.SendBatch(x.x.ID, x.x.Deletes, x.x.Updates); !errors.Is(err, delivery.ErrUnknownBatch) || len(out) > 0 {
					c.Violate("resend-accepted", "second SendBatch of an id returned %d topics, %v", len(out), err)
				}
				c.Count("refusals", 1)
			}
		}
		for _, x := range ps {
			out, err := p.SendBatch(x.x.ID, x.x.Deletes, x.x.Updates)
			if err != nil {
				c.Violate("send-error", "SendBatch of an announced id: %v", err)
				continue
			}
			checkSend(c, x.b, x.x, s, out)
		}
		c.Distinct(fp, len(s.Topics))
		c.Sample("schema=%v blocks=%s", s, fp)
	})
	run.Cases("refuse", run.Pick(8000, 80000), func(c *core.C) {
		g := core.NewGen(c.R, uint64(c.Rnd))
		s := g.Schema("def")
		s.Topics["foo/"] = "t1"
		p, err := delivery.NewProducer(s.Default, s.Topics)
		if err != nil {
			c.Violate("producer-new", "%v", err)
			return
		}
		b := g.Block(6)
		ids := b.Batches()
		kind := c.R.Intn(6)
		var want error
		switch kind {
		case 0: // zero sub-batch id
			ids["zero/"] = types.Hash{}
			want = delivery.ErrInvalidBatch
		case 1: // sub-batch at the path of an inline update
			b.Updates["misc/clash"] = []byte{1}
			ids["misc/clash"] = g.NewHash('S')
			want = delivery.ErrPrefixConflict
		case 2: // sub-batch at the path of an inline delete
			b.Deletes["misc/clash"] = struct{}{}
			ids["misc/clash"] = g.NewHash('S')
			want = delivery.ErrPrefixConflict
		case 3: // sub-batch at a prefix that counts messages
			b.Updates["foo/clash"] = []byte{1}
			ids["foo/"] = g.NewHash('S')
			want = delivery.ErrPrefixConflict
		case 4: // overlapping prefixes
			t := map[string]string{}
			for k, v := range s.Topics {
				t[k] = v
			}
			t["foo/bar"] = "t2"
			if pp, err := delivery.NewProducer("def", t); !errors.Is(err, delivery.ErrPrefixOverlap) || pp != nil {
				c.Violate("overlap-accepted", "overlapping schema %v gave %v", t, err)
			}
			c.Count("refusals", 1)
			c.Distinct("overlap", len(t))
			return
		case 5: // patterns that are none
			bad := []string{"(", "^(", "foo[", "^a(b", "*x"}[c.R.Intn(5)]
			t := map[string]string{"zz/": "t1", bad: "t2"}
			if pp, err := delivery.NewProducer("def", t); err == nil || pp != nil {
				c.Violate("pattern-accepted", "the schema %v gave %v, %v", t, pp, err)
			}
			c.Count("refusals", 1)
			c.Distinct("pattern", bad)
			return
		}
		out, err := p.AddBlock(b.Number, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, ids)
		if !errors.Is(err, want) || len(out) != 0 {
			c.Violate("invalid-accepted", "kind %d: AddBlock returned %d topics, err %v, want %v", kind, len(out), err, want)
		}
		c.Count("refusals", 1)
		c.Distinct("kind", kind, len(b.Updates), len(b.Deletes), len(b.Subs))
	})
}

func mustHex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// C24: the bytes on the wire are those of SPEC.md, in both directions.
func c24(run *core.Run) {
	run.Cases("golden", 1, func(c *core.C) {
		golden(c)
		c.Distinct("golden")
	})
	run.Cases("encode", run.Pick(16000, 300000), func(c *core.C) {
		// real producer -> independent decoder
		g := core.NewGen(c.R, uint64(c.Rnd))
		g.Wide = true
		s := g.Schema("def")
		p, err := delivery.NewProducer(s.Default, s.Topics)
		if err != nil {
			c.Violate("producer-new", "%v", err)
			return
		}
		b := g.Block(2 + c.R.Intn(20))
		out, err := p.AddBlock(b.Number, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, b.Batches())
		if err != nil {
			c.Violate("add-error", "%v", err)
			return
		}
		checkAdd(c, b, s, out)
		for _, x := range b.Subs {
			out, err := p.SendBatch(x.ID, x.Deletes, x.Updates)
			if err != nil {
				c.Violate("send-error", "%v", err)
				continue
			}
			checkSend(c, b, x, s, out)
		}
		for _, ms := range out {
			for _, m := range ms {
				if m.Key()[0] == core.TBatch {
					ub, err := delivery.UnmarshalBatch(m.Value())
					if err != nil || ub == nil {
						c.Violate("unmarshal", "UnmarshalBatch of a real header: %v, %v", ub, err)
						continue
					}
					if sb, err := core.DecodeBatch(m.Value()); err == nil {
						if len(ub.Updates) != len(sb.Updates) {
							c.Violate("unmarshal", "UnmarshalBatch gave %d updates, expected %d", len(ub.Updates), len(sb.Updates))
						}
						for k, u := range sb.Updates {
							if x, ok := ub.Updates[k]; !ok || !bytes.Equal(x.Value, u.Value) || x.Delete != u.Delete || x.Count != int(u.Count) || x.Subbatch != u.Subbatch {
								c.Violate("unmarshal", "UnmarshalBatch gave %+v for %q, expected %+v", x, k, u)
							}
						}
					}
					if bad, err := delivery.UnmarshalBatch([]byte{2, 3}); err == nil {
						c.Violate("unmarshal", "UnmarshalBatch of a broken header: %v", bad)
					}
					if ub.Number != b.Number || ub.ParentHash != b.Parent || new(big.Int).SetBytes(ub.Weight).Cmp(b.Weight) != 0 {
						c.Violate("unmarshal", "UnmarshalBatch gave %v for %v", ub, b)
					}
				}
			}
		}
		n := int64(c.R.Intn(1 << 30))
		h := g.NewHash('R')
		for _, m := range []struct {
			m delivery.Message
			t byte
		}{{p.Reorg(n, h), core.TReorg}, {p.ReorgDone(n, h), core.TReorgDone}} {
			if !bytes.Equal(m.m.Key(), core.Key(m.t, h[:])) {
				c.Violate("reorg-key", "key %x for type %d hash %x", m.m.Key(), m.t, h[:])
			}
			if v, err := core.DecodeInt(m.m.Value()); err != nil || v != n {
				c.Violate("reorg-value", "value %x decodes to %d %v, want %d", m.m.Value(), v, err, n)
			}
		}
		c.Distinct("enc", len(b.Updates), len(b.Deletes), len(b.Subs), b.Number, len(s.Topics))
		c.Sample("encode %v", b)
	})
	run.Cases("decode", run.Pick(16000, 300000), func(c *core.C) {
		// independent encoder, legal variations -> real consumer
		g := core.NewGen(c.R, 1)
		conf := mpConf{schema: g.Schema("def"), track: core.All, th: 16, blocks: 1 + c.R.Intn(3), size: 2 + c.R.Intn(14), spec: true, strictFR: true, binary: c.R.Intn(2) == 0}
		assembly(c, conf, c.R.Intn(2) == 0)
	})
	run.Cases("ints", run.Pick(400, 4000), func(c *core.C) {
		// sub-batches large enough for multi-byte indexes
		g := core.NewGen(c.R, uint64(c.Rnd))
		b := &core.Block{Number: g.Number(), Hash: g.NewHash('B'), Parent: g.NewHash('P'), Weight: g.Weight(), Updates: map[string][]byte{}, Deletes: map[string]struct{}{}}
		x := core.Sub{ID: g.NewHash('S'), Path: "state/", Updates: map[string][]byte{}}
		n := []int{0, 1, 63, 64, 65, 127, 128, 300, 8191, 8193}[c.R.Intn(10)]
		for i := 0; i < n; i++ {
			x.Updates[fmt.Sprint("state/", i)] = []byte(fmt.Sprint(i))
		}
		b.Subs = []core.Sub{x}
		r := &mpRig{c: c, conf: mpConf{schema: core.Schema{Default: "def"}, track: core.All, spec: c.R.Intn(2) == 0}, byH: map[types.Hash]*unit{}, g: g}
		u := &unit{b: b, seen: map[string]bool{}, at: -1}
		if r.conf.spec {
			u.msgs = core.SpecMessages(b, r.conf.schema, c.R)
		} else {
			p, _ := delivery.NewProducer("def", nil)
			bu, err := core.Produce(p, b)
			if err != nil {
				c.Violate("produce-error", "%v", err)
				return
			}
			checkSend(c, b, x, r.conf.schema, map[string][]delivery.Message{"def": onlySub(bu["def"])})
			u.msgs = bu.Flatten(map[string]int64{})
		}
		var err error
		if u.need, err = needKeys(b, r.conf.schema, core.All, u.msgs); err != nil {
			c.Violate("bad-key", "%v", err)
			return
		}
		r.byH[b.Hash] = u
		r.units = []*unit{u}
		r.mp, r.ch = newMP(4, core.All, true)
		c.R.Shuffle(len(u.msgs), func(i, j int) { u.msgs[i], u.msgs[j] = u.msgs[j], u.msgs[i] })
		for _, m := range u.msgs {
			ms := m
			r.quick(u, ms)
		}
		r.finish()
		c.Max("max_subbatch_index", int64(n-1))
	})
}

func onlySub(ms []delivery.Message) []delivery.Message {
	out := []delivery.Message{}
	for _, m := range ms {
		if t := m.Key()[0]; t == core.TSubHeader || t == core.TSubMsg {
			out = append(out, m)
		}
	}
	return out
}

// quick is feed without the per-message completeness scan (for big blocks).
func (r *mpRig) quick(u *unit, m *core.Msg) {
	u.seen[string(m.K)] = true
	if len(u.seen) < len(u.need) {
		if err := r.mp.ProcessMessage(m); err != nil {
			r.c.Violate("process-error", "%v", err)
		}
		r.n++
		select {
		case pb := <-r.ch:
			r.c.Violate("emitted-early", "block %x emitted after %d of %d messages", pb.Hash[24:], len(u.seen), len(u.need))
			u.done = true
		default:
		}
		return
	}
	r.feed(u, m)
}

// golden pins the bytes of one block, worked out by hand from SPEC.md.
func golden(c *core.C) {
	var h, ph, sb types.Hash
	for i := range h {
		h[i], ph[i], sb[i] = 0xaa, 0xbb, 0xcc
	}
	p, err := delivery.NewProducer("def", map[string]string{"foo/": "t"})
	if err != nil {
		c.Violate("producer-new", "%v", err)
		return
	}
	out, err := p.AddBlock(1000, h, ph, big.NewInt(0x0102), map[string][]byte{"foo/a": []byte("A")}, map[string]struct{}{}, map[string]types.Hash{"st/": sb})
	if err != nil {
		c.Violate("add-error", "%v", err)
		return
	}
	hx := strings.Repeat
	aa, bb, cc := hx("aa", 32), hx("bb", 32), hx("cc", 32)
	zero := hx("00", 32)
	e1 := "08" + hex.EncodeToString([]byte("foo/")) + "00" + "02" + "00" + zero
	e2 := "06" + hex.EncodeToString([]byte("st/")) + "00" + "00" + "00" + cc
	pre := "d00f" + "04" + "0102" + bb
	hdr := ""
	for _, m := range out["def"] {
		if m.Key()[0] == 0 {
			if hex.EncodeToString(m.Key()) != "00"+aa {
				c.Violate("golden", "header key %x", m.Key())
			}
			hdr = hex.EncodeToString(m.Value())
		}
	}
	ok := false
	size := func(n int) string { return hex.EncodeToString(core.PutLong(nil, int64(n))) }
	for _, body := range []string{e1 + e2, e2 + e1} {
		// one map block, with or without its byte size
		for _, enc := range []string{"04" + body + "00", "03" + size(len(body)/2) + body + "00"} {
			ok = ok || hdr == pre+enc
		}
	}
	if !ok {
		c.Violate("golden", "header bytes %s", hdr)
	}
	if len(out["t"]) != 1 || hex.EncodeToString(out["t"][0].Key()) != "03"+aa+hex.EncodeToString([]byte("foo/a")) || string(out["t"][0].Value()) != "A" {
		c.Violate("golden", "set message %v", out["t"])
	}
	sent, err := p.SendBatch(sb, []string{"st/x"}, map[string][]byte{"st/y": []byte("Y")})
	if err != nil {
		c.Violate("send-error", "%v", err)
		return
	}
	keys := []string{}
	for _, m := range sent["def"] {
		keys = append(keys, hex.EncodeToString(m.Key()))
		if m.Key()[0] == 1 && hex.EncodeToString(m.Value()) != "04" {
			c.Violate("golden", "sub-batch header value %x, want 04", m.Value())
		}
	}
	sort.Strings(keys)
	if strings.Join(keys, " ") != strings.Join([]string{"01" + aa + cc, "02" + aa + cc + "00", "02" + aa + cc + "02"}, " ") {
		c.Violate("golden", "sub-batch keys %v", keys)
	}
	if k := hex.EncodeToString(p.Reorg(5, h).Key()) + hex.EncodeToString(p.Reorg(5, h).Value()); k != "05"+aa+"0a" {
		c.Violate("golden", "reorg %s", k)
	}
	if k := hex.EncodeToString(p.ReorgDone(5, h).Key()) + hex.EncodeToString(p.ReorgDone(5, h).Value()); k != "06"+aa+"0a" {
		c.Violate("golden", "reorg done %s", k)
	}
	// and the consumer reads hand-made bytes
	mp, ch := newMP(8, core.All, true)
	for _, m := range []*core.Msg{
		{K: mustHex("02" + aa + cc + "02"), V: mustHex("0002" + "08" + hex.EncodeToString([]byte("st/y")) + "02" + "59" + "00")},
		{K: mustHex("00" + aa), V: mustHex(pre + "04" + e1 + e2 + "00")},
		{K: mustHex("01" + aa + cc), V: mustHex("04")},
		{K: mustHex("02" + aa + cc + "00"), V: mustHex("02" + "08" + hex.EncodeToString([]byte("st/x")) + "00" + "00")},
		{K: mustHex("03" + aa + hex.EncodeToString([]byte("foo/a"))), V: []byte("A")},
	} {
		if err := mp.ProcessMessage(m); err != nil {
			c.Violate("golden", "ProcessMessage: %v", err)
		}
	}
	select {
	case pb := <-ch:
		d := core.DiffContent(pb.Values, pb.Deletes, map[string][]byte{"foo/a": []byte("A"), "st/y": []byte("Y")}, map[string]struct{}{"st/x": {}})
		if d != "" || pb.Number != 1000 || pb.Weight.Int64() != 0x0102 || pb.ParentHash != ph || pb.Hash != h {
			c.Violate("golden", "consumer read %+v: %s", pb, d)
		}
	default:
		c.Violate("golden", "hand-made bytes did not complete a block")
	}
}
