//go:build go1.21

// Package core: shared machinery of the monitors. spec.go is an independent
// implementation of the wire format, written from SPEC.md alone.
package core

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sort"

	types "github.com/openrelayxyz/cardinal-types"
)

// Message types, from SPEC.md.
const (
	TBatch       = 0
	TSubHeader   = 1
	TSubMsg      = 2
	TBatchMsg    = 3
	TBatchDelete = 4
	TReorg       = 5
	TReorgDone   = 6
	TPing        = 0xff
)

// ---- Avro primitives ----

func PutLong(out []byte, v int64) []byte {
	u := uint64(v<<1) ^ uint64(v>>63)
	for u >= 0x80 {
		out = append(out, byte(u)|0x80)
		u >>= 7
	}
	return append(out, byte(u))
}

func PutBytes(out []byte, b []byte) []byte { return append(PutLong(out, int64(len(b))), b...) }

type rd struct {
	b   []byte
	pos int
}

var ErrShort = errors.New("avro: short input")

func (r *rd) long() (int64, error) {
	var u uint64
	for s := uint(0); s < 70; s += 7 {
		if r.pos >= len(r.b) {
			return 0, ErrShort
		}
		c := r.b[r.pos]
		r.pos++
		u |= uint64(c&0x7f) << s
		if c&0x80 == 0 {
			return int64(u>>1) ^ -int64(u&1), nil
		}
	}
	return 0, errors.New("avro: varint too long")
}

func (r *rd) n(n int) ([]byte, error) {
	if n < 0 || r.pos+n > len(r.b) {
		return nil, ErrShort
	}
	v := r.b[r.pos : r.pos+n]
	r.pos += n
	return append([]byte{}, v...), nil
}

func (r *rd) bytes() ([]byte, error) {
	l, err := r.long()
	if err != nil {
		return nil, err
	}
	return r.n(int(l))
}

// blocks iterates the blocks of an avro map/array.
func (r *rd) blocks(item func() error) error {
	for {
		c, err := r.long()
		if err != nil {
			return err
		}
		if c == 0 {
			return nil
		}
		if c < 0 {
			if _, err := r.long(); err != nil {
				return err
			}
			c = -c
		}
		for ; c > 0; c-- {
			if err := item(); err != nil {
				return err
			}
		}
	}
}

// ---- records ----

type SpecUpdate struct {
	Value    []byte
	Count    int64
	Delete   bool
	Subbatch types.Hash
}

type SpecBatch struct {
	Num     int64
	Weight  []byte
	Parent  types.Hash
	Updates map[string]SpecUpdate
}

type SpecSub struct {
	Delete  []string
	Updates map[string][]byte
}

func DecodeInt(b []byte) (int64, error) {
	r := &rd{b: b}
	v, err := r.long()
	if err == nil && r.pos != len(b) {
		err = fmt.Errorf("avro: %d trailing bytes", len(b)-r.pos)
	}
	return v, err
}

func DecodeBatch(b []byte) (*SpecBatch, error) {
	r := &rd{b: b}
	out := &SpecBatch{Updates: map[string]SpecUpdate{}}
	var err error
	if out.Num, err = r.long(); err != nil {
		return nil, err
	}
	if out.Weight, err = r.bytes(); err != nil {
		return nil, err
	}
	p, err := r.n(32)
	if err != nil {
		return nil, err
	}
	copy(out.Parent[:], p)
	err = r.blocks(func() error {
		k, err := r.bytes()
		if err != nil {
			return err
		}
		var u SpecUpdate
		if u.Value, err = r.bytes(); err != nil {
			return err
		}
		if u.Count, err = r.long(); err != nil {
			return err
		}
		d, err := r.n(1)
		if err != nil {
			return err
		}
		u.Delete = d[0] == 1
		s, err := r.n(32)
		if err != nil {
			return err
		}
		copy(u.Subbatch[:], s)
		if _, dup := out.Updates[string(k)]; dup {
			return fmt.Errorf("duplicate update entry %q", k)
		}
		out.Updates[string(k)] = u
		return nil
	})
	if err != nil {
		return nil, err
	}
	if r.pos != len(b) {
		return nil, fmt.Errorf("avro: %d trailing bytes", len(b)-r.pos)
	}
	return out, nil
}

func DecodeSub(b []byte) (*SpecSub, error) {
	r := &rd{b: b}
	out := &SpecSub{Updates: map[string][]byte{}}
	if err := r.blocks(func() error {
		s, err := r.bytes()
		out.Delete = append(out.Delete, string(s))
		return err
	}); err != nil {
		return nil, err
	}
	if err := r.blocks(func() error {
		k, err := r.bytes()
		if err != nil {
			return err
		}
		v, err := r.bytes()
		out.Updates[string(k)] = v
		return err
	}); err != nil {
		return nil, err
	}
	if r.pos != len(b) {
		return nil, fmt.Errorf("avro: %d trailing bytes", len(b)-r.pos)
	}
	return out, nil
}

// putBlocks writes n already encoded items as avro blocks. With a non-nil
// rng the (legal) block structure is varied.
func putBlocks(out []byte, items [][]byte, rng *rand.Rand) []byte {
	for len(items) > 0 {
		n := len(items)
		if rng != nil && n > 1 && rng.Intn(3) == 0 {
			n = 1 + rng.Intn(n-1)
		}
		var body []byte
		for _, it := range items[:n] {
			body = append(body, it...)
		}
		if rng != nil && rng.Intn(2) == 0 {
			out = PutLong(out, -int64(n))
			out = PutLong(out, int64(len(body)))
		} else {
			out = PutLong(out, int64(n))
		}
		out = append(out, body...)
		items = items[n:]
	}
	return PutLong(out, 0)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (b *SpecBatch) Encode(rng *rand.Rand) []byte {
	out := PutLong(nil, b.Num)
	out = PutBytes(out, b.Weight)
	out = append(out, b.Parent[:]...)
	items := [][]byte{}
	for _, k := range sortedKeys(b.Updates) {
		u := b.Updates[k]
		it := PutBytes(nil, []byte(k))
		it = PutBytes(it, u.Value)
		it = PutLong(it, u.Count)
		if u.Delete {
			it = append(it, 1)
		} else {
			it = append(it, 0)
		}
		it = append(it, u.Subbatch[:]...)
		items = append(items, it)
	}
	if rng != nil {
		rng.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
	}
	return putBlocks(out, items, rng)
}

func (s *SpecSub) Encode(rng *rand.Rand) []byte {
	items := [][]byte{}
	for _, d := range s.Delete {
		items = append(items, PutBytes(nil, []byte(d)))
	}
	out := putBlocks(nil, items, rng)
	items = nil
	for _, k := range sortedKeys(s.Updates) {
		items = append(items, PutBytes(PutBytes(nil, []byte(k)), s.Updates[k]))
	}
	return putBlocks(out, items, rng)
}

// Key builds a message key as SPEC.md lays it out.
func Key(t byte, parts ...[]byte) []byte {
	out := []byte{t}
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// Parsed is a message taken apart by the SPEC.md layout.
type Parsed struct {
	Type  byte
	Block types.Hash
	Sub   types.Hash
	Index int64
	Path  string
}

func ParseKey(k []byte) (Parsed, error) {
	var p Parsed
	if len(k) < 33 {
		return p, fmt.Errorf("key of %d bytes", len(k))
	}
	p.Type = k[0]
	copy(p.Block[:], k[1:33])
	rest := k[33:]
	switch p.Type {
	case TBatch, TReorg, TReorgDone:
		if len(rest) != 0 {
			return p, fmt.Errorf("type %d key has %d extra bytes", p.Type, len(rest))
		}
	case TSubHeader:
		if len(rest) != 32 {
			return p, fmt.Errorf("sub-batch header key: batch id of %d bytes", len(rest))
		}
		copy(p.Sub[:], rest)
	case TSubMsg:
		if len(rest) < 33 {
			return p, fmt.Errorf("sub-batch message key too short")
		}
		copy(p.Sub[:], rest[:32])
		i, err := DecodeInt(rest[32:])
		if err != nil {
			return p, fmt.Errorf("sub-batch index: %v", err)
		}
		p.Index = i
	case TBatchMsg, TBatchDelete:
		p.Path = string(rest)
	default:
		return p, fmt.Errorf("unknown message type %d", p.Type)
	}
	return p, nil
}

// HashOf makes a distinct 32 byte id.
func HashOf(tag byte, n uint64, salt uint64) types.Hash {
	var h types.Hash
	h[0] = tag
	binary.BigEndian.PutUint64(h[8:], salt)
	binary.BigEndian.PutUint64(h[24:], n)
	return h
}
