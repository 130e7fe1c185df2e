//go:build go1.21

package dl

import (
	"encoding/hex"
	"regexp"
	"strconv"
	"strings"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"verif/harness/core"
)

func init() { registry["C28"] = c28 }

var (
	whyPrefix = regexp.MustCompile(`(?s)^Pending prefix '(.*)'$`)
	whyBatch  = regexp.MustCompile(`(?s)^Pending batch '(0x[0-9a-f]+|.*)'\[(\d+)\]$`)
)

// why checks one answer about a block against what was delivered of it.
func (r *mpRig) why(u *unit) {
	c := r.c
	got := r.mp.WhyNotReady(u.b.Hash)
	c.Count("answers", 1)
	kind := strings.SplitN(got, "'", 2)[0]
	c.Count("answer_"+strings.ReplaceAll(strings.TrimSpace(kind), " ", "_"), 1)
	header := string(core.Key(core.TBatch, u.b.Hash[:]))
	if u.done || !u.seen[header] {
		if got != "not found" {
			c.Violate("why-found", "block %x is not pending (emitted: %v), but the answer is %q", u.b.Hash[24:], u.done, got)
		}
		return
	}
	// what is outstanding
	prefixes := map[string]bool{}
	headers, msgs := false, map[string]bool{}
	for k := range u.need {
		if u.seen[k] {
			continue
		}
		p, _ := core.ParseKey([]byte(k))
		switch p.Type {
		case core.TBatchMsg, core.TBatchDelete:
			pre, _ := r.conf.schema.Match(p.Path)
			prefixes[pre] = true
		case core.TSubHeader:
			headers = true
		case core.TSubMsg:
			msgs[hex.EncodeToString(p.Sub[:])+"/"+strconv.Itoa(int(p.Index))] = true
		}
	}
	switch {
	case got == "Pending batches":
		if !headers {
			c.Violate("why-wrong", "block %x is said to wait for batches, but all were announced; outstanding: prefixes %v, messages %v", u.b.Hash[24:], prefixes, msgs)
		}
	case whyPrefix.MatchString(got):
		if p := whyPrefix.FindStringSubmatch(got)[1]; !prefixes[p] {
			c.Violate("why-wrong", "block %x is said to wait for prefix %q, but the outstanding prefixes are %v", u.b.Hash[24:], p, prefixes)
		}
	case whyBatch.MatchString(got):
		m := whyBatch.FindStringSubmatch(got)
		if !msgs[strings.TrimPrefix(m[1], "0x")+"/"+m[2]] {
			c.Violate("why-wrong", "block %x is said to wait for %q, but the outstanding sub-batch messages are %v", u.b.Hash[24:], got, msgs)
		}
	default:
		c.Violate("why-untrue", "block %x still needs prefixes %v, batch headers %v, batch messages %v, but the answer is %q", u.b.Hash[24:], prefixes, headers, msgs, got)
	}
}

// C28: WhyNotReady tells the truth.
func c28(run *core.Run) {
	run.Cases("assembly", run.Pick(6000, 100000), func(c *core.C) {
		g := core.NewGen(c.R, 1)
		track := core.All
		sch := g.Schema("def")
		conf := mpConf{schema: sch, track: track, th: 64, blocks: 1 + c.R.Intn(3), size: 2 + c.R.Intn(8), spec: c.R.Intn(4) == 0}
		r := buildRig(c, conf)
		for _, d := range r.schedule(c.R.Intn(2) == 0) {
			r.feed(d.u, d.m)
			for _, u := range r.units {
				r.why(u)
			}
			if c.Bad() {
				return
			}
		}
		c.Distinct(r.fp)
		c.Sample("%d blocks, %d messages", len(r.units), r.n)
	})
	run.Cases("orderer", run.Pick(3000, 40000), func(c *core.C) {
		bubble(c, func() {
			g := core.NewGen(c.R, uint64(c.Rnd))
			st := startBlock(g, c.R)
			r := newOmp(c, &delivery.ConsumerConfig{LastEmittedNum: st.Number, LastHash: st.Hash, LastWeight: st.Weight, ReorgThreshold: 128, TrackedPrefixes: core.All})
			r.start = st
			r.tree(g, 2+c.R.Intn(16), c.R.Intn(4), 3, []int{0, 60, 90}[c.R.Intn(3)])
			for _, n := range r.deliveries(c.R.Intn(5), c.R.Intn(4)) {
				r.deliver(n, c.R.Intn(2) == 0)
				conn := map[*node]bool{}
				for _, n := range r.nodes {
					conn[n] = n.got && (n.parent == nil || conn[n.parent])
					got := r.omp.WhyNotReady(n.b.Hash)
					c.Count("answers", 1)
					want := "pending parent"
					switch {
					case !n.got:
						want = "not found"
					case conn[n] || n.b.Weight.Cmp(r.tipWeight()) < 0:
						want = "done, not evicted" // applied, or kept in case of a reorg
					}
					if got != want && !(n.got && !conn[n]) {
						c.Violate("why-orderer", "%v (delivered %v, connected %v): %q", n, n.got, conn[n], got)
					}
					if n.got && !conn[n] && got != "pending parent" && got != "done, not evicted" {
						c.Violate("why-orderer", "%v waits for an ancestor: %q", n, got)
					}
				}
				if c.Bad() {
					break
				}
			}
			r.close()
			c.Distinct(r.fp)
		})
	})
}
