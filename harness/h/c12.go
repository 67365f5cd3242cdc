package h

import (
	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// noisyHeader is a log file header of arbitrary contents.
func noisyHeader(tag string) []byte {
	h := make([]byte, 4*blockSize)
	copy(h, sym.Bytes(tag+"format", 16))
	n := []int{0, 12, 31}[sym.Choose(tag+"creator", 3)]
	for i := 0; i < n; i++ {
		h[16+i] = byte('A' + i)
	}
	copy(h[508:], sym.Bytes(tag+"sum", 4))
	copy(h[512:], sym.Bytes(tag+"cp1", 40))
	copy(h[1024:], sym.Bytes(tag+"empty", 4))
	copy(h[1536:], sym.Bytes(tag+"cp2", 40))
	copy(h[2044:], sym.Bytes(tag+"cpsum", 4))
	return h
}

// noisyBlock holds the payload between arbitrary header and trailer bytes.
func noisyBlock(tag string, payload []byte) []byte {
	b := block(0, payload)
	copy(b[0:], sym.Bytes(tag+"no", 4))
	copy(b[6:], sym.Bytes(tag+"first", 6))
	copy(b[508:], sym.Bytes(tag+"sum", 4))
	n := len(payload)
	if n < 496 {
		// what the block had there before
		k := 496 - n
		if k > 8 {
			k = 8
		}
		copy(b[12+n:], sym.Bytes(tag+"old", k))
	}
	return b
}

func c12table() *Table { return idTable(integer(true), varcharLatin(20)) }

// c12stream is a stream of three updates.
func c12stream(t *Table) ([]byte, []byte, []byte, []pending) {
	a, p := mkUpdate(t, []int{1}, 0, "a")
	b, q := mkUpdate(t, []int{1, 2}, 0, "b")
	c, r := mkUpdate(t, []int{2}, 0, "c")
	return a.rec(), b.rec(), c.rec(), []pending{p, q, r}
}

func c12check(t *Table, ps []pending, files ...[]byte) {
	var paths []string
	for _, f := range files {
		paths = append(paths, sym.File(f))
	}
	out, err := readLogs(dictFile(t), t.DB, t.Name, paths...)
	sym.Assert(err == nil, "reading the logs failed")
	sym.Observe("out", out)
	checkAll(updates(out), ps...)
}

// filler is a stream of n bytes (6 or more) of records without a meaning here.
func filler(n int) []byte {
	b := rec(30, be(2, 60), be(2, uint64(n-7)))
	for len(b) < n {
		b = append(b, byte(20+len(b)%20))
	}
	return b
}

// The stream is cut at every place of the second update: between two blocks that
// are partly filled, between a full block and the next, or between two files.
func C12_cut() {
	t := c12table()
	a, b, c, ps := c12stream(t)
	at := sym.Choose("cut", len(b)+1)
	one := cat(a, b[:at])
	two := cat(b[at:], c)
	switch sym.Choose("how", 4) {
	case 0:
		c12check(t, ps, cat(logHeader(0), block(1, one), block(2, two), make([]byte, 512)))
	case 1:
		one = cat(filler(496-len(one)), one)
		c12check(t, ps, cat(logHeader(0), block(1, one), block(2, two), make([]byte, 512)))
	case 2:
		c12check(t, ps, cat(logHeader(0), block(1, one), make([]byte, 512)), cat(logHeader(1), block(2, two), make([]byte, 512)))
	case 3:
		one = cat(filler(496-len(one)), one)
		two = cat(two, filler(496-len(two)))
		c12check(t, ps, cat(logHeader(0), block(1, one)), cat(logHeader(1), block(2, two)))
	}
}

// Three cuts anywhere.
func C12_cuts() {
	t := c12table()
	a, b, c, ps := c12stream(t)
	s := cat(a, b, c)
	step := 9
	if sym.Thorough() {
		step = 4
	}
	var parts [][]byte
	prev := 0
	for i := 0; i < 3; i++ {
		left := (len(s) - prev) / step
		n := prev + step*sym.Choose("cut", left+1)
		parts = append(parts, s[prev:n])
		prev = n
	}
	parts = append(parts, s[prev:])
	// some of them may be empty
	var bs []byte
	for _, p := range parts {
		bs = append(bs, block(1, p)...)
	}
	c12check(t, ps, cat(logHeader(0), bs))
}

// Arbitrary contents of file headers, checkpoints, block headers and trailers.
func C12_noise() {
	t := c12table()
	a, b, c, ps := c12stream(t)
	n := len(b) / 2
	full := cat(filler(496-len(a)-n), a, b[:n])
	c12check(t, ps,
		cat(noisyHeader("h"), noisyBlock("x", full), noisyBlock("y", b[n:])),
		cat(noisyHeader("i"), noisyBlock("z", c), make([]byte, 512)))
}

// A long stream with updates that are longer than a block, in one to three files.
func C12_long() {
	t := idTable(textCol(), varcharLatin(20))
	ns := []int{400, 480, 490, 500, 960, 1500}
	var s []byte
	var ps []pending
	for i := 0; i < 3; i++ {
		u, p := mkUpdate(t, []int{1, 2}, 0, "u"+string(rune('0'+i)))
		v := make([]byte, ns[sym.Choose("size", len(ns))])
		for k := range v {
			v[k] = byte('a' + k%26)
		}
		v[0] = byte(sym.Range("first", 'a', 'z'))
		v[len(v)-1] = byte(sym.Range("last", 'a', 'z'))
		u.upd[0].v = Val{B: v}
		p.chks[0] = func(l Lit, w string) { wantText(l, v, w) }
		s = append(s, u.rec()...)
		ps = append(ps, p)
	}
	bs := blocks(7, s)
	k := sym.Choose("files", 3)
	var files [][]byte
	for i := 0; i < k; i++ {
		files = append(files, cat(logHeader(i), bs[:512]))
		bs = bs[512:]
	}
	files = append(files, cat(logHeader(k), bs, make([]byte, 512)))
	c12check(t, ps, files...)
}

// Files without any block, or with an unused first block, among others.
func C12_emptyFiles() {
	t := c12table()
	a, b, c, ps := c12stream(t)
	var files [][]byte
	for i, s := range [][]byte{a, b, c} {
		switch sym.Choose("before", 3) {
		case 1:
			files = append(files, logHeader(8))
		case 2:
			files = append(files, cat(logHeader(8), make([]byte, 1024)))
		}
		f := cat(logHeader(i), block(1, s))
		if sym.Choose("end", 2) == 1 {
			f = cat(f, make([]byte, 512))
		}
		files = append(files, f)
	}
	c12check(t, ps, files...)
}

// Every number of bytes in a block, with one record that fills it.
func C12_fill() {
	t := c12table()
	a, b, _, ps := c12stream(t)
	n := sym.Choose("fill", 500-len(a)-7)
	one := cat(filler(7+n), a)
	sym.Assume(len(one) <= 496)
	c12check(t, ps[:2], cat(logHeader(0), block(1, one), block(2, b), make([]byte, 512)))
}
