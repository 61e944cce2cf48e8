package main

import (
	"encoding/binary"
	"math/rand"
	"sort"
)

// keygen makes keys and values of a size profile.
type keygen struct {
	r      *rand.Rand
	prof   string
	seq    uint64
	prefix []byte
}

func newKeygen(r *rand.Rand, prof string) *keygen {
	g := &keygen{r: r, prof: prof}
	g.prefix = make([]byte, 300)
	r.Read(g.prefix)
	return g
}

func (g *keygen) bytes(n int) []byte {
	b := make([]byte, n)
	g.r.Read(b)
	return b
}

func (g *keygen) pick(ns ...int) int { return ns[g.r.Intn(len(ns))] }

// id-led key: order given by the id, size free.
func (g *keygen) idKey(id uint64, n int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, id)
	if n > 8 {
		b = append(b, g.bytes(n-8)...)
	}
	return b
}

func (g *keygen) key() []byte {
	g.seq++
	r := g.r
	switch g.prof {
	case "asc", "desc", "zig", "mid2":
	default:
		switch r.Intn(300) {
		case 0:
			// ordinary keys that read like the sentinels
			return []byte([]string{"", "MIN_KEY", "MAX_KEY", "MIN_KE", "MIN_KEY\x00", "MAX_KEY\x00", "N", "M"}[r.Intn(8)])
		case 2, 3:
			// two strings with the same 64-bit FNV-1a sum, so that every key starting
			// with one has the sum of the key starting with the other
			return []byte([]string{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"}[r.Intn(2)] + []string{"", "x", "longer key", "longer key"}[r.Intn(4)])
		case 1:
			if r.Intn(4) == 0 {
				return g.bytes(g.pick(376, 377, 16631, 16632, 16633, 40000))
			}
		}
	}
	switch g.prof {
	case "tiny":
		return g.bytes(r.Intn(5))
	case "mid":
		return g.bytes(5 + r.Intn(40))
	case "max":
		return g.bytes(256)
	case "max257":
		return g.bytes(257 + r.Intn(3))
	case "over":
		return g.bytes(246 + r.Intn(60))
	case "tie":
		n := g.pick(240, 248, 249, 250, 255, 256, 257, 258, 260, 280)
		return append(append([]byte(nil), g.prefix[:n]...), g.bytes(r.Intn(3))...)
	case "nest":
		// prefixes of one string
		return append([]byte(nil), g.prefix[:r.Intn(301)]...)
	case "asc":
		return g.idKey(g.seq, g.pick(8, 40, 200, 256, 257))
	case "desc":
		return g.idKey(^g.seq, g.pick(8, 40, 200, 256, 257))
	case "zig":
		id := g.seq
		if id&1 == 0 {
			id = ^id
		}
		return g.idKey(id, g.pick(8, 100, 256))
	case "mid2":
		// inserted into one gap
		if r.Intn(2) == 0 {
			return g.idKey(1<<40-g.seq, g.pick(8, 256))
		}
		return g.idKey(1<<40+g.seq, g.pick(8, 256))
	case "skew":
		// neighbourhoods of very small and of very large entries
		c := r.Intn(8)
		b := []byte{byte(c)}
		if c&1 == 0 {
			return append(b, g.bytes(255)...)
		}
		return append(b, g.bytes(5)...)
	case "bimodal":
		// short and long keys in turn along the order
		return g.bytes(g.pick(9, 60, 256, 256, 256))
	case "short24":
		// around the hash map's short key limit
		return g.bytes(20 + r.Intn(10))
	}
	// mix
	switch r.Intn(10) {
	case 0:
		return g.bytes(r.Intn(4))
	case 1, 2:
		return g.bytes(20 + r.Intn(10))
	case 3, 4:
		return g.bytes(r.Intn(256))
	case 5, 6:
		return g.bytes(250 + r.Intn(10))
	case 7:
		n := r.Intn(len(g.prefix))
		return append(append([]byte(nil), g.prefix[:n]...), g.bytes(r.Intn(8))...)
	case 8:
		return append([]byte(nil), g.prefix[:r.Intn(301)]...)
	}
	return g.bytes(300 + r.Intn(300))
}

func (g *keygen) value() []byte {
	r := g.r
	switch r.Intn(500) {
	case 0:
		// around the steps of the length prefixes
		return g.bytes(g.pick(247, 248, 16370+r.Intn(30), 16503, 16504, 16505, 66000))
	case 1:
		if r.Intn(20) == 0 {
			return g.bytes(1<<21 + r.Intn(300) - 20)
		}
	}
	switch g.prof {
	case "tiny", "short24":
		return g.bytes(r.Intn(4))
	case "mid":
		return g.bytes(r.Intn(60))
	case "max", "max257":
		return g.bytes(g.pick(128, 128, 127, 129, 200))
	case "bimodal":
		return g.bytes(128)
	case "skew":
		return g.bytes(g.pick(0, 0, 128))
	}
	switch r.Intn(6) {
	case 0:
		return nil
	case 1:
		return g.bytes(r.Intn(20))
	case 2:
		return g.bytes(r.Intn(128))
	case 3, 4:
		return g.bytes(119 + r.Intn(14))
	}
	return g.bytes(120 + r.Intn(300))
}

// neighbour derives a key close to an existing one.
func (g *keygen) neighbour(k []byte) []byte {
	b := append([]byte(nil), k...)
	switch g.r.Intn(5) {
	case 0:
		return append(b, byte(g.r.Intn(2)*255))
	case 1:
		if len(b) > 0 {
			return b[:len(b)-1]
		}
		return []byte{0}
	case 2:
		if len(b) > 0 {
			b[len(b)-1]++
		}
		return b
	case 3:
		if len(b) > 0 {
			b[len(b)-1]--
		}
		return b
	}
	if len(b) > 0 {
		b[g.r.Intn(len(b))] ^= 1 << uint(g.r.Intn(8))
	}
	return b
}

// model is the reference map.
type model struct {
	m      map[string]string
	keys   []string
	pos    map[string]int
	sorted []string
	dirty  bool
	pay    int
}

func newModel() *model { return &model{m: map[string]string{}, pos: map[string]int{}} }

func (m *model) set(k, v string) {
	if old, ok := m.m[k]; ok {
		m.pay += len(v) - len(old)
		m.m[k] = v
		return
	}
	m.m[k] = v
	m.pay += len(k) + len(v)
	m.pos[k] = len(m.keys)
	m.keys = append(m.keys, k)
	m.dirty = true
}

func (m *model) del(k string) {
	v, ok := m.m[k]
	if !ok {
		return
	}
	m.pay -= len(k) + len(v)
	delete(m.m, k)
	i := m.pos[k]
	n := len(m.keys) - 1
	m.keys[i] = m.keys[n]
	m.pos[m.keys[i]] = i
	m.keys = m.keys[:n]
	delete(m.pos, k)
	m.dirty = true
}

func (m *model) order() []string {
	if m.dirty || m.sorted == nil {
		m.sorted = append(m.sorted[:0], m.keys...)
		sort.Strings(m.sorted)
		m.dirty = false
	}
	return m.sorted
}
