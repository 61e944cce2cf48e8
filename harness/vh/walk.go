package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
)

// walkResult is what the raw file space says about a structure.
type walkResult struct {
	err     string
	reach   map[int64]bool
	items   map[string]string
	order   []string
	nItems  int
	leaves  int
	nons    int
	height  int
	slots   int
	dirs    int
	maxLeaf int
	maxNon  int
	minLeaf int // non-root
	minNon  int
	sepErr  string
	listErr string
	shape   []*leafShape
}

// leafShape is what the choice of the next operation looks at.
type leafShape struct {
	keys     []string
	grow     int      // how much longer the separator gets when the first record goes
	size     int      // of the first record
	load     int
	leftmost bool // the first record is not below a separator
	parent   *nodeShape
	at       int
}

type nodeShape struct{ n, load int }

type walkPanic string

func wfail(f string, a ...interface{}) { panic(walkPanic(fmt.Sprintf(f, a...))) }

func (w *walkResult) space(a int64) []byte {
	b := fsmPeek(a)
	if b == nil {
		wfail("the structure refers to space %d, which is not allocated", a)
	}
	if w.reach[a] {
		wfail("space %d is referred to twice", a)
	}
	w.reach[a] = true
	return b
}

func be32(b []byte, o int) int {
	if o < 0 || o+4 > len(b) {
		wfail("offset %d outside its space", o)
	}
	return int(int32(binary.BigEndian.Uint32(b[o:])))
}
func be64(b []byte, o int) int64 {
	if o < 0 || o+8 > len(b) {
		wfail("offset %d outside its space", o)
	}
	return int64(binary.BigEndian.Uint64(b[o:]))
}

func (w *walkResult) overflow(enc []byte, max int) []byte {
	if len(enc) < max {
		return enc
	}
	if len(enc) > max {
		wfail("stored entry of %d bytes", len(enc))
	}
	a := be64(enc, max-8)
	b := w.space(a)
	n, i := binary.Uvarint(b)
	if i <= 0 || i+int(n) > len(b) {
		wfail("overflow space %d corrupted", a)
	}
	return append(append([]byte(nil), enc[:max-8]...), b[i:i+int(n)]...)
}

type btLeaf struct {
	addr, prev, next int64
}

// walkTree reads a B+ tree from the info stored at infoAddr.
func walkTree(infoAddr int64) (w *walkResult) {
	w = &walkResult{reach: map[int64]bool{}, items: map[string]string{}, minLeaf: 1 << 30, minNon: 1 << 30}
	defer func() {
		if e := recover(); e != nil {
			if p, ok := e.(walkPanic); ok {
				w.err = string(p)
				return
			}
			panic(e)
		}
	}()
	info := w.space(infoAddr)
	root := be64(info, 0)
	w.height = int(int8(info[8]))
	tail, head := be64(info, 9), be64(info, 17)
	var leaves []btLeaf
	var walk func(a int64, d int, parent *nodeShape, at int) []byte
	walk = func(a int64, d int, parent *nodeShape, at int) []byte {
		p := w.space(a)
		if len(p) != 8192 {
			wfail("node of %d bytes", len(p))
		}
		if d == w.height {
			w.leaves++
			leaves = append(leaves, btLeaf{a, be64(p, 0), be64(p, 8)})
			n := be32(p, 16)
			if n < 0 || 20+8*n > 8192 {
				wfail("leaf with %d records", n)
			}
			off := make([]int, 2*n+1)
			off[2*n] = 8192
			for i := 0; i < n; i++ {
				off[2*i], off[2*i+1] = be32(p, 20+8*i), be32(p, 24+8*i)
			}
			for i := 0; i < 2*n; i++ {
				if off[i] > off[i+1] {
					wfail("leaf offsets out of order")
				}
			}
			if off[0] < 20+8*n {
				wfail("leaf overflows its page")
			}
			load := 8*n + 8192 - off[0]
			if load > w.maxLeaf {
				w.maxLeaf = load
			}
			if d > 1 && load < w.minLeaf {
				w.minLeaf = load
			}
			var first []byte
			if n >= 2 && parent != nil {
				w.shape = append(w.shape, &leafShape{grow: (off[3] - off[2]) - (off[1] - off[0]), size: off[2] - off[0] + 8, load: load, leftmost: at == 0, parent: parent, at: at})
			}
			from := len(w.order)
			for i := 0; i < n; i++ {
				ek := p[off[2*i]:off[2*i+1]]
				if i == 0 {
					first = ek
				}
				k := w.overflow(ek, 257)
				v := w.overflow(p[off[2*i+1]:off[2*i+2]], 129)
				if _, dup := w.items[string(k)]; dup {
					wfail("key %q is stored twice", k)
				}
				w.items[string(k)] = string(v)
				w.order = append(w.order, string(k))
			}
			if n >= 2 && parent != nil {
				w.shape[len(w.shape)-1].keys = w.order[from : from+n]
			}
			return first
		}
		w.nons++
		n := be32(p, 0)
		if n < 1 || 4+12*n > 8192 {
			wfail("non-leaf with %d children", n)
		}
		if n < 2 {
			w.sepErr = "non-leaf with a single child"
		}
		off := make([]int, n+1)
		off[n] = 8192
		for i := 0; i < n; i++ {
			off[i] = be32(p, 4+12*i)
		}
		for i := 0; i < n; i++ {
			if off[i] > off[i+1] {
				wfail("non-leaf offsets out of order")
			}
		}
		if off[0] < 4+12*n {
			wfail("non-leaf overflows its page")
		}
		load := 12*n + 8192 - off[0]
		if load > w.maxNon {
			w.maxNon = load
		}
		if d > 1 && load < w.minNon {
			w.minNon = load
		}
		var first []byte
		me := &nodeShape{n, load}
		for i := 0; i < n; i++ {
			f := walk(be64(p, 8+12*i), d+1, me, i)
			if i == 0 {
				first = f
				if off[1] != off[0] {
					w.sepErr = "the first child has a separator"
				}
			} else if !bytes.Equal(f, p[off[i]:off[i+1]]) {
				w.sepErr = "a separator differs from the first key below it"
			}
		}
		return first
	}
	walk(root, 1, nil, 0)
	w.nItems = len(w.order)
	if head != leaves[0].addr || tail != leaves[len(leaves)-1].addr {
		w.listErr = "leaf list ends wrong"
	}
	for i, l := range leaves {
		if l.next != leaves[(i+1)%len(leaves)].addr || l.prev != leaves[(i+len(leaves)-1)%len(leaves)].addr {
			w.listErr = "leaf list links wrong"
		}
	}
	return
}

func uvarint(b []byte, i int) (uint64, int) {
	n, k := binary.Uvarint(b[i:])
	if k <= 0 {
		wfail("bad varint")
	}
	return n, i + k
}

func pbFields(b []byte, f func(no int, n uint64, d []byte)) {
	for i := 0; i < len(b); {
		var t, n uint64
		t, i = uvarint(b, i)
		switch t & 7 {
		case 0:
			n, i = uvarint(b, i)
			f(int(t>>3), n, nil)
		case 2:
			n, i = uvarint(b, i)
			if i+int(n) > len(b) {
				wfail("bad length in a message")
			}
			f(int(t>>3), 0, b[i:i+int(n)])
			i += int(n)
		case 1:
			if i+8 > len(b) {
				wfail("bad fixed64 in a message")
			}
			n = binary.LittleEndian.Uint64(b[i:])
			i += 8
			f(int(t>>3), n, nil)
		default:
			wfail("unknown wire type")
		}
	}
}

// walkMap reads a hash map from the info stored at infoAddr.
func walkMap(infoAddr int64) (w *walkResult) {
	w = &walkResult{reach: map[int64]bool{}, items: map[string]string{}}
	defer func() {
		if e := recover(); e != nil {
			if p, ok := e.(walkPanic); ok {
				w.err = string(p)
				return
			}
			panic(e)
		}
	}()
	info := w.space(infoAddr)
	n, i := uvarint(info, 0)
	if i+int(n) > len(info) {
		wfail("bad info")
	}
	var dirsAddr int64
	pbFields(info[i:i+int(n)], func(no int, n uint64, d []byte) {
		switch no {
		case 1:
			dirsAddr = int64(n)
		case 2:
			w.dirs = int(n)
		case 4:
			w.slots = int(n)
		}
	})
	dirs := w.space(dirsAddr)
	for d := 0; d < w.dirs; d++ {
		dir := w.space(be64(dirs, 8*d))
		for s := 0; s < 4096 && d*4096+s < w.slots; s++ {
			a := be64(dir, 8*s)
			if a < 0 {
				continue
			}
			b := w.space(a)
			n, i := uvarint(b, 0)
			if i+int(n) > len(b) {
				wfail("slot %d corrupted", d*4096+s)
			}
			type ii struct{ k, v int }
			var infos []ii
			var bin []byte
			pbFields(b[i:i+int(n)], func(no int, _ uint64, d []byte) {
				switch no {
				case 1:
					x := ii{}
					pbFields(d, func(no int, n uint64, _ []byte) {
						switch no {
						case 2:
							x.k = int(n)
						case 3:
							x.v = int(n)
						}
					})
					infos = append(infos, x)
				case 2:
					bin = d
				}
			})
			o := 0
			for j, x := range infos {
				if j == len(infos)-1 {
					x.v = len(bin) - o - x.k
				}
				if x.k < 0 || x.v < 0 || o+x.k+x.v > len(bin) {
					wfail("slot %d corrupted", d*4096+s)
				}
				k := string(bin[o : o+x.k])
				if _, dup := w.items[k]; dup {
					wfail("key %q is stored twice", k)
				}
				w.items[k] = string(bin[o+x.k : o+x.k+x.v])
				o += x.k + x.v
				w.nItems++
			}
			if len(infos) == 0 {
				w.sepErr = "an empty slot occupies space"
			}
		}
	}
	return
}
