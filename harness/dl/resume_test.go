//go:build go1.21

package dl

import (
	"fmt"
	"hash/fnv"
	"math/big"
	"strconv"
	"strings"
	"testing/synctest"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/harness/core"
)

func init() { registry["C11"] = c11 }

// logs is what the transport holds: per source, messages by offset.
type logs struct {
	names []string
	msgs  map[string][]*core.Msg
	blk   map[string][]int // block index of each message
}

func (l *logs) add(src string, k, v []byte, blk int) {
	if _, ok := l.msgs[src]; !ok {
		l.names = append(l.names, src)
	}
	l.msgs[src] = append(l.msgs[src], &core.Msg{K: k, V: v, Src: src, Off: int64(len(l.msgs[src]))})
	l.blk[src] = append(l.blk[src], blk)
}

func partition(k []byte, n int) int {
	h := fnv.New32a()
	h.Write(k)
	return int(h.Sum32()>>3) % n
}

// chainLogs produces a chain by two producers onto partitioned topics.
func chainLogs(c *core.C, g *core.Gen, st *core.Block, n int) (*logs, []*core.Block, core.Schema) {
	R := c.R
	schema := g.Schema("def")
	parts := 1 + R.Intn(3)
	l := &logs{msgs: map[string][]*core.Msg{}, blk: map[string][]int{}}
	var blocks []*core.Block
	parent, num, w := st.Hash, st.Number, st.Weight
	for i := 0; i < n; i++ {
		b := g.Block([]int{0, 3, 8}[R.Intn(3)])
		num++
		w = new(big.Int).Add(w, big.NewInt(int64(1+R.Intn(3))))
		b.Number, b.Parent, b.Weight = num, parent, w
		parent = b.Hash
		blocks = append(blocks, b)
	}
	prods := []*delivery.Producer{}
	for i := 0; i < 2; i++ {
		p, err := delivery.NewProducer(schema.Default, schema.Topics)
		if err != nil {
			c.Violate("producer-new", "%v", err)
			c.Abort()
		}
		prods = append(prods, p)
	}
	emit := func(p *delivery.Producer, i int) {
		bu, err := core.Produce(p, blocks[i])
		if err != nil {
			c.Violate("produce-error", "%v", err)
			c.Abort()
		}
		for _, m := range bu.Flatten(map[string]int64{}) {
			l.add(fmt.Sprintf("%s:%d", m.Src, partition(m.K, parts)), m.K, m.V, i)
		}
	}
	lag := R.Intn(4)
	from, to := n, n
	if R.Intn(3) > 0 { // the second producer is there for a while
		from = R.Intn(n)
		to = from + R.Intn(n-from+1)
	}
	for i := 0; i < n+lag; i++ {
		if i < n {
			emit(prods[0], i)
		}
		if j := i - lag; j >= from && j < to {
			emit(prods[1], j)
		}
	}
	return l, blocks, schema
}

func parseToken(tok string) (map[string]int64, error) {
	out := map[string]int64{}
	if tok == "" {
		return out, nil
	}
	for _, p := range strings.Split(tok, ";") {
		i := strings.LastIndex(p, "=")
		if i < 0 {
			return nil, fmt.Errorf("no offset in %q", p)
		}
		o, err := strconv.ParseInt(p[i+1:], 10, 64)
		if err != nil {
			return nil, err
		}
		if _, dup := out[p[:i]]; dup {
			return nil, fmt.Errorf("source %q twice", p[:i])
		}
		out[p[:i]] = o
	}
	return out, nil
}

type emission struct {
	idx   int
	token map[string]int64
	raw   string
	skew  int64 // how far back restarts must go to cover sources that had run ahead
}

// C11: restarting from a block's token loses nothing.
func c11(run *core.Run) {
	run.Cases("resume", run.Pick(2500, 60000), func(c *core.C) { bubble(c, func() { resumeCase(c) }) })
}

func resumeCase(c *core.C) {
	R := c.R
	g := core.NewGen(R, uint64(c.Rnd))
	g.TextKeys = true
	st := startBlock(g, R)
	n := 3 + R.Intn(12)
	l, blocks, schema := chainLogs(c, g, st, n)
	byH := map[types.Hash]int{}
	for i, b := range blocks {
		byH[b.Hash] = i
	}
	ahead := []int{0, 1, 5, 40}[R.Intn(4)]

	// consume reads the sources from the given offsets and returns what comes
	// out; the chain the updates form must start right after block `after`.
	consume := func(gen int, from map[string]int64, after int, limit int) []emission {
		lh, ln, lw := st.Hash, st.Number, st.Weight
		if after >= 0 {
			lh, ln, lw = blocks[after].Hash, blocks[after].Number, blocks[after].Weight
		}
		omp, err := delivery.NewOrderedMessageProcessor(&delivery.ConsumerConfig{LastEmittedNum: ln, LastHash: lh, LastWeight: lw, ReorgThreshold: 128, TrackedPrefixes: core.All})
		if err != nil {
			c.Violate("omp-new", "%v", err)
			c.Abort()
		}
		pbs := make(chan *delivery.PendingBatch, 4096)
		upd := make(chan *delivery.ChainUpdate, 4096)
		omp.Subscribe(pbs)
		omp.Subscribe(upd)
		pos := map[string]int64{}
		for _, s := range l.names {
			pos[s] = from[s] // sources not in the token are read from their start
			if pos[s] < 0 {
				pos[s] = 0
			}
		}
		header := map[int]map[string]int64{} // max processed offset per source when the header was first processed
		done := map[string]int64{}
		var ems []emission
		var chain []int
		steps := 0
		for {
			// the block every source may be at most `ahead` messages past
			low := n
			for _, s := range l.names {
				if int(pos[s]) < len(l.msgs[s]) && l.blk[s][pos[s]] < low {
					low = l.blk[s][pos[s]]
				}
			}
			cand := []string{}
			for _, s := range l.names {
				if int(pos[s]) >= len(l.msgs[s]) {
					continue
				}
				over := 0
				for o := from[s]; o <= pos[s]; o++ {
					if o >= 0 && l.blk[s][o] > low {
						over++
					}
				}
				if over <= ahead {
					cand = append(cand, s)
				}
			}
			if len(cand) == 0 {
				if low == n {
					break
				}
				for _, s := range l.names {
					if int(pos[s]) < len(l.msgs[s]) && l.blk[s][pos[s]] == low {
						cand = append(cand, s)
					}
				}
			}
			s := cand[R.Intn(len(cand))]
			for burst := 1 + R.Intn(6); burst > 0 && int(pos[s]) < len(l.msgs[s]); burst-- {
				m := l.msgs[s][pos[s]]
				i := l.blk[s][pos[s]]
				done[s] = pos[s]
				pos[s]++
				steps++
				if m.K[0] == core.TBatch && header[i] == nil {
					cp := map[string]int64{}
					for k, v := range done {
						cp[k] = v
					}
					header[i] = cp
				}
				if err := omp.ProcessMessage(m); err != nil {
					c.Violate("process-error", "%v", err)
				}
				for len(pbs) > 0 {
					pb := <-pbs
					k := byH[pb.Hash]
					tok, err := parseToken(pb.Resumption())
					if err != nil {
						c.Violate("token", "token %q: %v", pb.Resumption(), err)
						c.Abort()
					}
					e := emission{idx: k, token: tok, raw: pb.Resumption()}
					for src, t := range tok {
						if len(l.msgs[src]) == 0 {
							c.Violate("token", "token %q names a source that does not exist", pb.Resumption())
							continue
						}
						if t > done[src] {
							c.Violate("token", "block %d: token says %s=%d, but only %d was read", k, src, t, done[src])
						}
						// not further back than it need be
						need := header[k][src]
						if _, ok := header[k][src]; !ok {
							need = t // first read after the header
						}
						for o := max(from[src], 0); o < need; o++ {
							if l.blk[src][o] == k {
								need = o
							}
						}
						if t < need {
							c.Violate("token", "block %d: token says %s=%d, but it needs nothing before %d", k, src, t, need)
						}
						// what had been read from this source, past block k, when its header came
						for o := from[src]; o <= header[k][src] && o < int64(len(l.msgs[src])); o++ {
							if o >= 0 && l.blk[src][o] > k && header[k][src]-o > e.skew {
								e.skew = header[k][src] - o
							}
						}
					}
					for src := range header[k] {
						if _, ok := tok[src]; !ok {
							c.Violate("token", "block %d: token %q does not mention source %s, which had been read", k, pb.Resumption(), src)
						}
					}
					ems = append(ems, e)
				}
			}
			if limit > 0 && len(ems) >= limit {
				break
			}
		}
		synctest.Wait()
		for len(upd) > 0 {
			u := <-upd
			for _, pb := range u.Added() {
				chain = append(chain, byH[pb.Hash])
			}
		}
		c.Count("messages", steps)
		if limit == 0 {
			for i := after + 1; i < n; i++ {
				if k := i - after - 1; k >= len(chain) || chain[k] != i {
					c.Violate("lost-after-restart", "generation %d restarted after block %d from %v: updates gave blocks %v of %d", gen, after, from, chain, n)
					break
				}
			}
		}
		omp.Close()
		synctest.Wait()
		return ems
	}
	ems := consume(0, map[string]int64{}, -1, 0)
	var fp []string
	restarts := 0
	for gen := 1; gen <= 3 && len(ems) > 0 && !c.Bad(); gen++ {
		e := ems[R.Intn(len(ems))]
		c.Tracef("generation %d: restart from block %d, token %q, skew %d", gen, e.idx, e.raw, e.skew)
		fp = append(fp, e.raw)
		// (a) from the token itself, the block is seen again
		mp := delivery.NewMessageProcessor(&delivery.ConsumerConfig{ReorgThreshold: 128, TrackedPrefixes: core.All})
		ch := make(chan *delivery.PendingBatch, 4096)
		mp.Subscribe(ch)
		seen := false
		for _, s := range l.names {
			for o := e.token[s]; o < int64(len(l.msgs[s])); o++ {
				if l.blk[s][o] == e.idx {
					mp.ProcessMessage(l.msgs[s][o])
				}
			}
		}
		for len(ch) > 0 {
			if pb := <-ch; pb.Hash == blocks[e.idx].Hash {
				seen = true
				if d := core.DiffBatch(pb, blocks[e.idx], schema, core.All); d != "" {
					c.Violate("content", "block %d read again from its token differs: %s", e.idx, d)
				}
			}
		}
		if !seen {
			c.Violate("token-past-block", "reading from the token of block %d (%q) does not give the block again", e.idx, e.raw)
		}
		// (b) going back by at least the skew, every later block arrives
		from := map[string]int64{}
		for s, o := range e.token {
			from[s] = o - e.skew - int64([]int{0, 0, 1, 10}[R.Intn(4)])
		}
		ems = consume(gen, from, e.idx, 0)
		restarts++
		// only blocks from e.idx on are restart points of interest
		kept := ems[:0]
		for _, x := range ems {
			if x.idx > e.idx {
				kept = append(kept, x)
			}
		}
		ems = kept
		c.Max("max_skew", e.skew)
		c.Count("tokens_checked", 1)
		if e.skew > 0 {
			c.Count("tokens_with_skew", 1)
		}
	}
	c.Count("restarts", restarts)
	if restarts > 0 {
		c.Distinct(strings.Join(fp, "|"), n)
	}
	c.Sample("%d blocks over %d sources, tokens %v", n, len(l.names), fp)
}
