package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// ---- bodies of redo records (MySQL 5.7) with arbitrary contents ----

type c13gen struct{ n int }

func (g *c13gen) bytes(n int) []byte {
	g.n++
	return sym.Bytes("b"+string(rune('a'+g.n)), n)
}

func (g *c13gen) num() []byte {
	g.n++
	return comp(sym.U32("n" + string(rune('a'+g.n))))
}

func (g *c13gen) num64() []byte {
	g.n++
	return comp64(sym.U64("q" + string(rune('a'+g.n))))
}

// few is a compressed number that is a count or a length of the structure.
func few(n int) []byte { return comp(uint32(n)) }

func (g *c13gen) length() int {
	ns := []int{0, 1, 5, 127, 128, 300}
	if sym.Thorough() {
		ns = append(ns, 2, 63, 64, 255, 256, 1000, 16383)
	}
	g.n++
	return ns[sym.Choose("len"+string(rune('a'+g.n)), len(ns))]
}

// data of n bytes: a few arbitrary ones at both ends, between them bytes that
// look like records.
func (g *c13gen) data(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = []byte{0x14, 1, 4, 0, 31, 0xff}[i%6]
	}
	k := n
	if k > 3 {
		k = 3
	}
	copy(b, g.bytes(k))
	if n > 3 {
		copy(b[n-1:], g.bytes(1))
	}
	return b
}

// index is the description of an index in records of COMPACT pages.
func (g *c13gen) index() []byte {
	n := []int{0, 1, 3, 40}[sym.Choose("fields", 4)]
	b := cat(be(2, uint64(n)), g.bytes(2))
	if n > 3 {
		return cat(b, make([]byte, 2*(n-1)), g.bytes(2))
	}
	return cat(b, g.bytes(2*n))
}

// insert is a record insert, without its place if short.
func (g *c13gen) insert(short bool) []byte {
	var b []byte
	if !short {
		b = g.bytes(2)
	}
	switch sym.Choose("info", 4) {
	case 0:
		n := g.length()
		return cat(b, few(n<<1), g.data(n))
	case 1:
		n := g.length()
		return cat(b, few(n<<1|1), g.bytes(1), few(5), few(300), g.data(n))
	case 2:
		return cat(b, few(5<<1|1), g.bytes(1), g.num(), few(300), g.data(5))
	}
	return cat(b, few(5<<1|1), g.bytes(1), few(5), g.num(), g.data(5))
}

func (g *c13gen) sys() []byte { return cat(g.num(), g.bytes(7), g.num64()) }

func (g *c13gen) update() []byte {
	if sym.Choose("sys", 2) == 1 {
		return cat(g.bytes(1), g.sys(), g.bytes(3), few(1), few(3), few(2), g.bytes(2))
	}
	b := cat(g.bytes(1), few(1), g.bytes(7), comp64(0x501), g.bytes(3))
	n := sym.Choose("updated", 4)
	b = append(b, few(n)...)
	for i := 0; i < n; i++ {
		b = append(b, few(sym.Range("field", 0, 127))...)
		switch sym.Choose("value", 3) {
		case 0:
			b = append(b, few(0xFFFFFFFF)...)
		case 1:
			b = append(b, few(0)...)
		case 2:
			l := []int{1, 200}[i%2]
			b = cat(b, few(l), g.data(l))
		}
	}
	return b
}

func (g *c13gen) name() []byte {
	n := g.length()
	return cat(be(2, uint64(n)), g.data(n))
}

// body gives the body of a record type.
func (g *c13gen) body(typ int) []byte {
	switch typ {
	case 1, 2, 4:
		return cat(g.bytes(2), g.num())
	case 8:
		return cat(g.bytes(2), g.num64())
	case 9:
		return g.insert(false)
	case 38:
		return cat(g.index(), g.insert(false))
	case 10:
		return cat(g.bytes(2), g.sys(), g.bytes(2))
	case 39:
		return cat(g.index(), g.bytes(2), g.sys(), g.bytes(2))
	case 11:
		return g.bytes(3)
	case 40:
		return cat(g.index(), g.bytes(3))
	case 13:
		return g.update()
	case 41:
		return cat(g.index(), g.update())
	case 14, 15, 16:
		return g.bytes(2)
	case 42, 43, 44:
		return cat(g.index(), g.bytes(2))
	case 17, 45:
		var b []byte
		fix := cat(few(3<<1|1), []byte{0x20}, few(300), few(2), []byte("abc"))
		switch sym.Choose("inserts", 4) {
		case 1:
			b = g.insert(true)
		case 2:
			b = cat(g.insert(true), fix)
		case 3:
			b = cat(fix, fix, g.insert(true))
		}
		b = cat(be(4, uint64(len(b))), b)
		if typ == 45 {
			b = cat(g.index(), b)
		}
		return b
	case 46:
		return g.index()
	case 52, 53:
		return cat(g.index(), g.bytes(1))
	case 22:
		return g.num()
	case 24, 25:
		return g.num64()
	case 26, 36:
		return g.bytes(2)
	case 30:
		n := g.length()
		return cat(g.bytes(2), be(2, uint64(n)), g.data(n))
	case 33, 35, 55:
		return g.name()
	case 47:
		return cat(g.bytes(4), g.name())
	case 34, 54:
		return cat(g.name(), g.name())
	case 48:
		return g.bytes(8)
	case 49:
		return g.bytes(24)
	case 50:
		n := []int{0, 1, 8, 255}[sym.Choose("len", 4)]
		return cat(g.bytes(1), be(1, uint64(n)), g.data(n))
	case 51:
		n, m := g.length(), g.length()
		return cat(be(2, uint64(n)), be(2, uint64(m)), g.bytes(8), g.data(n), g.data(m))
	case 60, 61:
		return g.bytes(8)
	}
	return nil
}

// The record types of MySQL 5.7.
var c13types = []int{
	1, 2, 4, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19, 21, 22, 23, 24, 25, 26, 27, 29, 30,
	31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55,
	56, 57, 58, 59, 60, 61,
}

func (g *c13gen) rec(typ int) []byte {
	switch typ {
	case 31, 32:
		return []byte{byte(typ)}
	case 56:
		return cat([]byte{56}, g.bytes(8))
	}
	flag := 0
	if sym.Bool("single") {
		flag = 128
	}
	return rec(typ|flag, g.body(typ))
}

// c13check: the records are followed by an update that is recovered.
func c13check(recs []byte, more ...pending) {
	t := idTable(integer(true), varcharLatin(20))
	u, p := mkUpdate(t, []int{1, 2}, 0, "u")
	checkAll(readStream(t, cat(recs, u.rec())), append(more, p)...)
}

func c13some(types ...int) {
	g := &c13gen{}
	c13check(g.rec(types[sym.Choose("type", len(types))]))
}

func C13_bytes()   { c13some(1, 2, 4, 8, 22, 24, 25, 30) }
func C13_plain()   { c13some(11, 14, 15, 16, 18, 19, 21, 23, 26, 27, 29, 31, 32, 36, 37, 56, 57, 58, 59, 60, 61) }
func C13_files()   { c13some(33, 34, 35, 47, 54, 55) }
func C13_insert()  { c13some(9, 38) }
func C13_mark()    { c13some(10, 39, 40) }
func C13_update()  { c13some(13, 41) }
func C13_lists()   { c13some(42, 43, 44, 46, 52, 53) }
func C13_copy()    { c13some(17, 45) }
func C13_zip()     { c13some(48, 49, 50, 51) }

// The space and page number of the header are arbitrary.
func C13_header() {
	g := &c13gen{}
	typ := []int{1, 14, 20, 21, 59}[sym.Choose("type", 5)]
	body := g.bytes(2)
	switch typ {
	case 1:
		body = append(body, 5)
	case 20:
		body = cat(be(2, 3), []byte{undoInsert}, much(3), much(99))
	case 21, 59:
		body = nil
	}
	c13check(cat([]byte{byte(typ)}, g.num(), g.num(), body))
}

// Two records of any types, with fixed contents, between updates.
func C13_pairs() {
	t := idTable(integer(true), varcharLatin(20))
	a, p := mkUpdate(t, []int{1}, 0, "a")
	b, q := mkUpdate(t, []int{2}, 0, "b")
	r1 := c13fixed(c13types[sym.Choose("first", len(c13types))])
	r2 := c13fixed(c13types[sym.Choose("second", len(c13types))])
	checkAll(readStream(t, cat(a.rec(), r1, r2, b.rec())), p, q)
}

// c13fixed is a record of a type with contents of a fixed shape.
func c13fixed(typ int) []byte {
	g := &c13gen{}
	idx := cat(be(2, 2), be(2, 1), be(2, 0x8004), be(2, 0x7fff))
	ins := cat(few(6<<1|1), []byte{0x20}, few(300), few(2), []byte("abcdef"))
	upd := cat([]byte{1}, few(1), make([]byte, 7), comp64(0x501), be(2, 130), []byte{0}, few(2), few(3), few(0xFFFFFFFF), few(4), few(2), []byte{9, 9})
	name := cat(be(2, 9), []byte("db/t.ibd\x00"))
	switch typ {
	case 1, 2, 4:
		return rec(typ, be(2, 38), few(0x12345))
	case 8, 24, 25:
		if typ == 8 {
			return rec(typ, be(2, 38), comp64(0x123456789abc))
		}
		return rec(typ, comp64(0x123456789abc))
	case 22:
		return rec(typ, few(1))
	case 9:
		return rec(typ, be(2, 99), ins)
	case 38:
		return rec(typ, idx, be(2, 99), ins)
	case 10:
		return rec(typ, []byte{0, 1}, few(1), make([]byte, 7), comp64(0x501), be(2, 130))
	case 39:
		return rec(typ, idx, []byte{0, 1}, few(1), make([]byte, 7), comp64(0x501), be(2, 130))
	case 40:
		return rec(typ, idx, []byte{1}, be(2, 130))
	case 13:
		return rec(typ, upd)
	case 41:
		return rec(typ, idx, upd)
	case 17:
		return rec(typ, be(4, uint64(2*len(ins))), ins, ins)
	case 45:
		return rec(typ, idx, be(4, uint64(2*len(ins))), ins, ins)
	case 42, 43, 44:
		return rec(typ, idx, be(2, 130))
	case 46:
		return rec(typ, idx)
	case 52, 53:
		return rec(typ, idx, []byte{6})
	case 30:
		return rec(typ, be(2, 60), be(2, 3), []byte{20, 1, 2})
	case 33, 35, 55:
		return rec(typ, name)
	case 47:
		return rec(typ, be(4, 33), name)
	case 34, 54:
		return rec(typ, name, name)
	case 50:
		return rec(typ, []byte{4, 2, 7, 7})
	case 51:
		return rec(typ, be(2, 3), be(2, 2), make([]byte, 8), []byte{1, 2, 3, 4, 5})
	case 31, 32:
		return []byte{byte(typ)}
	case 56:
		return cat([]byte{56}, be(8, 8192))
	}
	return rec(typ, g.body(typ))
}
