//go:build go1.21

package core

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	types "github.com/openrelayxyz/cardinal-types"
)

// Sub is the content of one sub-batch.
type Sub struct {
	Path    string
	ID      types.Hash
	Deletes []string
	Updates map[string][]byte
}

// Block is what an application hands to a producer: the ground truth every
// monitor compares with.
type Block struct {
	Number  int64
	Hash    types.Hash
	Parent  types.Hash
	Weight  *big.Int
	Updates map[string][]byte
	Deletes map[string]struct{}
	Subs    []Sub
}

func (b *Block) Batches() map[string]types.Hash {
	m := map[string]types.Hash{}
	for _, s := range b.Subs {
		m[s.Path] = s.ID
	}
	return m
}

func (b *Block) String() string {
	return fmt.Sprintf("{num %d hash %x parent %x weight %v upd %d del %d subs %d}", b.Number, b.Hash[:], b.Parent[:], b.Weight, len(b.Updates), len(b.Deletes), len(b.Subs))
}

// Schema is a producer configuration plus an independent reading of it.
type Schema struct {
	Default string
	Topics  map[string]string // regexp -> topic
}

type compiled struct {
	re    *regexp.Regexp
	topic string
}

func (s Schema) compile() []compiled {
	out := []compiled{}
	for _, k := range sortedKeys(s.Topics) {
		r := k
		if !strings.HasPrefix(r, "^") {
			r = "^" + r
		}
		out = append(out, compiled{regexp.MustCompile(r), s.Topics[k]})
	}
	return out
}

// Match gives the declared prefix and topic of a key ("" when the key is
// outside the schema).
func (s Schema) Match(key string) (prefix, topic string) {
	for _, c := range s.compile() {
		if p := c.re.FindString(key); p != "" {
			return p, c.topic
		}
	}
	return "", s.Default
}

// AllTopics lists the topics of a schema.
func (s Schema) AllTopics() []string {
	m := map[string]bool{s.Default: true}
	for _, t := range s.Topics {
		m[t] = true
	}
	out := []string{}
	for t := range m {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

func Tracks(res []*regexp.Regexp, entry string) bool {
	for _, re := range res {
		if re.MatchString(entry) {
			return true
		}
	}
	return false
}

// Want computes the content a consumer tracking res has to see.
func (b *Block) Want(s Schema, res []*regexp.Regexp) (map[string][]byte, map[string]struct{}) {
	vals := map[string][]byte{}
	dels := map[string]struct{}{}
	entry := func(k string) string {
		if p, _ := s.Match(k); p != "" {
			return p
		}
		return k
	}
	for k, v := range b.Updates {
		if Tracks(res, entry(k)) {
			vals[k] = v
		}
	}
	for k := range b.Deletes {
		if Tracks(res, entry(k)) {
			dels[k] = struct{}{}
		}
	}
	for _, sb := range b.Subs {
		if !Tracks(res, sb.Path) {
			continue
		}
		for k, v := range sb.Updates {
			vals[k] = v
		}
		for _, d := range sb.Deletes {
			dels[d] = struct{}{}
		}
	}
	return vals, dels
}

// DiffBatch compares an emitted batch with the ground truth.
func DiffBatch(pb *delivery.PendingBatch, b *Block, s Schema, res []*regexp.Regexp) string {
	if pb.Number != b.Number {
		return fmt.Sprintf("number %d, want %d", pb.Number, b.Number)
	}
	if pb.Hash != b.Hash {
		return fmt.Sprintf("hash %x, want %x", pb.Hash[:], b.Hash[:])
	}
	if pb.ParentHash != b.Parent {
		return fmt.Sprintf("parent %x, want %x", pb.ParentHash[:], b.Parent[:])
	}
	if pb.Weight == nil || pb.Weight.Cmp(b.Weight) != 0 {
		return fmt.Sprintf("weight %v, want %v", pb.Weight, b.Weight)
	}
	vals, dels := b.Want(s, res)
	return DiffContent(pb.Values, pb.Deletes, vals, dels)
}

func DiffContent(gv map[string][]byte, gd map[string]struct{}, vals map[string][]byte, dels map[string]struct{}) string {
	for _, k := range sortedKeys(vals) {
		g, ok := gv[k]
		if !ok {
			return fmt.Sprintf("update %q missing", k)
		}
		if !bytes.Equal(g, vals[k]) {
			return fmt.Sprintf("update %q is %s, want %s", k, clip(g), clip(vals[k]))
		}
	}
	for _, k := range sortedKeys(gv) {
		if _, ok := vals[k]; !ok {
			return fmt.Sprintf("unexpected update %q=%s", k, clip(gv[k]))
		}
	}
	for _, k := range sortedKeys(dels) {
		if _, ok := gd[k]; !ok {
			return fmt.Sprintf("delete %q missing", k)
		}
	}
	for _, k := range sortedKeys(gd) {
		if _, ok := dels[k]; !ok {
			return fmt.Sprintf("unexpected delete %q", k)
		}
	}
	return ""
}

func clip(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d bytes)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// Msg is a delivered message.
type Msg struct {
	K, V []byte
	Off  int64
	Src  string
	T    time.Time
}

func (m *Msg) Key() []byte     { return m.K }
func (m *Msg) Value() []byte   { return m.V }
func (m *Msg) Offset() int64   { return m.Off }
func (m *Msg) Source() string  { return m.Src }
func (m *Msg) Time() time.Time { return m.T }

// Bundle is the full output of a producer for a block: topic -> messages in
// produced order.
type Bundle map[string][]delivery.Message

func merge(dst, src map[string][]delivery.Message) {
	for t, ms := range src {
		dst[t] = append(dst[t], ms...)
	}
}

// Produce runs the real producer over a block and its sub-batches.
func Produce(p *delivery.Producer, b *Block) (Bundle, error) {
	out := Bundle{}
	m, err := p.AddBlock(b.Number, b.Hash, b.Parent, b.Weight, b.Updates, b.Deletes, b.Batches())
	if err != nil {
		return nil, fmt.Errorf("AddBlock: %w", err)
	}
	merge(out, m)
	for _, s := range b.Subs {
		m, err := p.SendBatch(s.ID, s.Deletes, s.Updates)
		if err != nil {
			return nil, fmt.Errorf("SendBatch: %w", err)
		}
		merge(out, m)
	}
	return out, nil
}

// Flatten gives the messages of a bundle in a deterministic order, with
// per-topic offsets.
func (bu Bundle) Flatten(offsets map[string]int64) []*Msg {
	out := []*Msg{}
	for _, t := range sortedKeys(bu) {
		for _, m := range bu[t] {
			out = append(out, &Msg{K: m.Key(), V: m.Value(), Off: offsets[t], Src: t})
			offsets[t]++
		}
	}
	// a producer may emit one topic's messages in map order: normalise so a
	// case is determined by its seed alone
	sort.SliceStable(out, func(i, j int) bool {
		if c := bytes.Compare(out[i].K, out[j].K); c != 0 {
			return c < 0
		}
		return bytes.Compare(out[i].V, out[j].V) < 0
	})
	n := map[string]int64{}
	base := map[string]int64{}
	for _, m := range out {
		if _, ok := base[m.Src]; !ok {
			base[m.Src] = offsets[m.Src] - int64(len(bu[m.Src]))
		}
		m.Off = base[m.Src] + n[m.Src]
		n[m.Src]++
	}
	return out
}

// SpecMessages encodes a block by SPEC.md alone: an independent peer.
func SpecMessages(b *Block, s Schema, rng *rand.Rand) []*Msg {
	sb := &SpecBatch{Num: b.Number, Weight: b.Weight.Bytes(), Parent: b.Parent, Updates: map[string]SpecUpdate{}}
	out := []*Msg{}
	count := func(k string) (string, bool) {
		p, t := s.Match(k)
		if p == "" {
			return "", false
		}
		u := sb.Updates[p]
		u.Count++
		sb.Updates[p] = u
		return t, true
	}
	for _, k := range sortedKeys(b.Updates) {
		if t, ok := count(k); ok {
			out = append(out, &Msg{K: Key(TBatchMsg, b.Hash[:], []byte(k)), V: b.Updates[k], Src: t})
		} else {
			sb.Updates[k] = SpecUpdate{Value: b.Updates[k]}
		}
	}
	for _, k := range sortedKeys(b.Deletes) {
		if t, ok := count(k); ok {
			out = append(out, &Msg{K: Key(TBatchDelete, b.Hash[:], []byte(k)), Src: t})
		} else {
			sb.Updates[k] = SpecUpdate{Delete: true}
		}
	}
	for _, x := range b.Subs {
		_, t := s.Match(x.Path)
		sb.Updates[x.Path] = SpecUpdate{Subbatch: x.ID}
		// items: split deletes/updates into arbitrary sub-batch messages
		items := []*SpecSub{}
		dels := append([]string{}, x.Deletes...)
		keys := sortedKeys(x.Updates)
		for len(dels) > 0 || len(keys) > 0 {
			it := &SpecSub{Updates: map[string][]byte{}}
			nd, nu := 0, 0
			if len(dels) > 0 {
				nd = rng.Intn(len(dels) + 1)
			}
			if len(keys) > 0 {
				nu = rng.Intn(len(keys)) + 1
			} else if nd == 0 {
				nd = len(dels)
			}
			if nu > 5 {
				nu = 5
			}
			it.Delete = dels[:nd]
			dels = dels[nd:]
			for _, k := range keys[:nu] {
				it.Updates[k] = x.Updates[k]
			}
			keys = keys[nu:]
			items = append(items, it)
		}
		if rng.Intn(6) == 0 {
			items = append(items, &SpecSub{}) // "zero or more" records
		}
		out = append(out, &Msg{K: Key(TSubHeader, b.Hash[:], x.ID[:]), V: PutLong(nil, int64(len(items))), Src: t})
		for i, it := range items {
			out = append(out, &Msg{K: Key(TSubMsg, b.Hash[:], x.ID[:], PutLong(nil, int64(i))), V: it.Encode(rng), Src: t})
		}
	}
	out = append(out, &Msg{K: Key(TBatch, b.Hash[:]), V: sb.Encode(rng), Src: s.Default})
	offs := map[string]int64{}
	for _, m := range out {
		m.Off = offs[m.Src]
		offs[m.Src]++
	}
	return out
}
