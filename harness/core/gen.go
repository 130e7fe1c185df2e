//go:build go1.21

package core

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"regexp"

	types "github.com/openrelayxyz/cardinal-types"
)

// Gen draws schemas and blocks.
type Gen struct {
	R    *rand.Rand
	Salt uint64
	n    uint64
	// TextKeys restricts keys to valid UTF-8.
	TextKeys bool
	// Wide allows weights of more than 256 bits.
	Wide bool
}

func NewGen(r *rand.Rand, salt uint64) *Gen { return &Gen{R: r, Salt: salt} }

func (g *Gen) NewHash(tag byte) types.Hash {
	g.n++
	h := HashOf(tag, g.n, g.Salt)
	// spread the bytes: hashes look like hashes
	x := rand.New(rand.NewSource(int64(g.n)*7919 + int64(g.Salt)*104729 + int64(tag)))
	x.Read(h[1:24])
	binary.BigEndian.PutUint64(h[24:], g.n)
	return h
}

// prefix families: the schema regexp, and how to make a key under it.
type family struct {
	re  string
	gen func(g *Gen) string // a declared prefix instance
}

var families = []family{
	{"foo/", func(g *Gen) string { return "foo/" }},
	{"bar/[^/]+/baz/", func(g *Gen) string { return "bar/" + g.seg() + "/baz/" }},
	{"c/[0-9a-z]+/a/", func(g *Gen) string { return fmt.Sprintf("c/%x/a/", g.R.Intn(40)) }},
	{"^anchored/", func(g *Gen) string { return "anchored/" }},
	{"/lead/", func(g *Gen) string { return "/lead/" }},
	{"deep/(one|two)/x/", func(g *Gen) string { return "deep/" + []string{"one", "two"}[g.R.Intn(2)] + "/x/" }},
	{"flat:", func(g *Gen) string { return "flat:" }},
	{"exact/[a-z]+$", func(g *Gen) string { return "exact/" + []string{"aa", "bb", "cc", "dd"}[g.R.Intn(4)] }},
}

func (g *Gen) seg() string {
	switch g.R.Intn(6) {
	case 0:
		return fmt.Sprintf("%x", g.R.Intn(4))
	case 1:
		return "é" + fmt.Sprint(g.R.Intn(3))
	case 2:
		if !g.TextKeys {
			b := make([]byte, 4)
			g.R.Read(b)
			for i := range b {
				if b[i] == '/' || b[i] == '\n' {
					b[i] = 'n'
				}
				if b[i] >= 0x80 {
					b[i] = 0xfe // not valid UTF-8, and stable under regexp [^/]
				}
			}
			return string(b)
		}
	}
	return fmt.Sprintf("s%d", g.R.Intn(50))
}

func (g *Gen) tail() string {
	switch g.R.Intn(12) {
	case 0:
		return g.seg() + "/" + g.seg()
	case 1:
		return g.seg() + "/"
	case 2:
		return "../" + g.seg()
	case 3:
		return g.seg() + "//" + g.seg()
	case 4:
		return "./" + g.seg()
	case 5:
		return "."
	case 6:
		return g.seg() + "/" + g.seg() + "/" + g.seg()
	default:
		return g.seg()
	}
}

func (g *Gen) Schema(def string) Schema {
	s := Schema{Default: def, Topics: map[string]string{}}
	for _, f := range families {
		if g.R.Intn(2) == 0 {
			t := "t" + fmt.Sprint(g.R.Intn(4))
			if g.R.Intn(6) == 0 {
				t = def
			}
			s.Topics[f.re] = t
		}
	}
	return s
}

func (g *Gen) value() []byte {
	switch g.R.Intn(8) {
	case 0:
		return []byte{}
	case 1:
		b := make([]byte, 1+g.R.Intn(300))
		g.R.Read(b)
		return b
	case 2:
		return []byte{0}
	default:
		b := make([]byte, 1+g.R.Intn(12))
		g.R.Read(b)
		return b
	}
}

func (g *Gen) Weight() *big.Int {
	if g.Wide && g.R.Intn(8) == 0 {
		b := make([]byte, 33+g.R.Intn(40))
		g.R.Read(b)
		return new(big.Int).SetBytes(b)
	}
	switch g.R.Intn(5) {
	case 0:
		return new(big.Int)
	case 1:
		b := make([]byte, 32)
		g.R.Read(b)
		return new(big.Int).SetBytes(b)
	case 2:
		return new(big.Int).Lsh(big.NewInt(1), uint(g.R.Intn(256)))
	default:
		return big.NewInt(int64(g.R.Intn(100000)))
	}
}

func (g *Gen) Number() int64 {
	switch g.R.Intn(6) {
	case 0:
		return 0
	case 1:
		return g.R.Int63()
	case 2:
		return int64(1) << uint(g.R.Intn(62))
	default:
		return int64(g.R.Intn(1000000))
	}
}

// Fill draws the content of a block. Sub-batch paths are no keys, and every
// key is updated at most once and deleted at most once; now and then a
// sub-batch updates what another part of the block deletes, or the reverse.
func (g *Gen) Fill(b *Block, size int) {
	used := map[string]bool{}
	key := func() string {
		for {
			var k string
			f := families[g.R.Intn(len(families))]
			switch {
			case g.R.Intn(4) == 0:
				k = "misc/" + g.tail()
			case f.re == "exact/[a-z]+$":
				k = f.gen(g)
			default:
				k = f.gen(g) + g.tail()
			}
			if g.R.Intn(20) == 0 {
				k = g.tail()
			}
			if !used[k] && k != "" {
				used[k] = true
				return k
			}
		}
	}
	b.Updates = map[string][]byte{}
	b.Deletes = map[string]struct{}{}
	for i := g.R.Intn(size + 1); i > 0; i-- {
		b.Updates[key()] = g.value()
	}
	for i := g.R.Intn(size/2 + 1); i > 0; i-- {
		b.Deletes[key()] = struct{}{}
	}
	ns := 0
	if g.R.Intn(2) == 0 {
		ns = 1 + g.R.Intn(3)
	}
	for i := 0; i < ns; i++ {
		s := Sub{ID: g.NewHash('S'), Updates: map[string][]byte{}}
		s.Path = []string{"state/", "foo/sub", "misc/sub/", "anchored/s/", "/lead/s/"}[g.R.Intn(5)] + fmt.Sprint(i)
		if g.R.Intn(6) == 0 {
			s.ID[0] = 0 // a hash like any other
		}
		if used[s.Path] {
			continue
		}
		used[s.Path] = true
		n := g.R.Intn(5)
		if g.R.Intn(12) == 0 {
			n = 60 + g.R.Intn(80)
		}
		for j := 0; j < n; j++ {
			k := fmt.Sprintf("%s/%d/%s", s.Path, j, g.tail())
			if used[k] {
				continue
			}
			used[k] = true
			s.Updates[k] = g.value()
		}
		for j := g.R.Intn(4); j > 0; j-- {
			k := fmt.Sprintf("%s/d/%d/%s", s.Path, j, g.tail())
			if used[k] {
				continue
			}
			used[k] = true
			s.Deletes = append(s.Deletes, k)
		}
		b.Subs = append(b.Subs, s)
	}
	if len(b.Subs) > 0 && g.R.Intn(4) == 0 {
		g.clash(b)
	}
}

// clash makes a sub-batch delete a key that is updated elsewhere in the block
// (or in itself), or update one the block deletes.
func (g *Gen) clash(b *Block) {
	s := &b.Subs[g.R.Intn(len(b.Subs))]
	var keys []string
	switch g.R.Intn(3) {
	case 0:
		for _, k := range sortedKeys(b.Deletes) {
			if g.R.Intn(2) == 0 {
				s.Updates[k] = g.value()
			}
		}
		return
	case 1:
		keys = sortedKeys(b.Updates)
	default:
		keys = sortedKeys(b.Subs[g.R.Intn(len(b.Subs))].Updates)
	}
	for i := 1 + g.R.Intn(3); i > 0 && len(keys) > 0; i-- {
		j := g.R.Intn(len(keys))
		s.Deletes = append(s.Deletes, keys[j])
		keys = append(keys[:j:j], keys[j+1:]...)
	}
}

func (g *Gen) Block(size int) *Block {
	b := &Block{Number: g.Number(), Hash: g.NewHash('B'), Parent: g.NewHash('P'), Weight: g.Weight()}
	g.Fill(b, size)
	return b
}

// All matches every entry.
var All = []*regexp.Regexp{regexp.MustCompile("(?s).*")}
