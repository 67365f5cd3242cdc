package h

import (
	"strings"

	"github.com/zbdba/db-recovery/zz_verif/sym"
)

// c16table has columns of many kinds.
func c16table() *Table {
	return idTable(varcharLatin(20), integer(false), varbinaryCol(300), textCol(), bitCol(5), varcharUtf8(300))
}

func c16row(t *Table, n byte) []Val {
	row := []Val{val(0, 0, 0, n)}
	for i, c := range t.Cols[1:] {
		switch {
		case c.fixed() == 0:
			row = append(row, Val{B: []byte("v" + string(rune('a'+i)) + string(rune('0'+n)))})
		case c.MType == mInt && c.PType&fUnsigned == 0:
			b := make([]byte, c.Len)
			b[0], b[c.Len-1] = 0x80, n
			row = append(row, Val{B: b})
		default:
			b := make([]byte, c.Len)
			b[c.Len-1] = n
			row = append(row, Val{B: b})
		}
	}
	return row
}

// c16good is an intact page with two live and two deleted rows.
func c16good(no int, compact bool, t *Table, n byte) []byte {
	p, _ := c16page(no, compact, t, [][]Val{c16row(t, n), c16row(t, n+1)}, [][]Val{c16row(t, n+2), c16row(t, n+3)})
	return p
}

// c16page is a page with live and deleted rows; it also gives their origins.
func c16page(no int, compact bool, t *Table, live, free [][]Val) ([]byte, []int) {
	p := newPage(no, t.indexes()[0].ID, compact)
	var os []int
	at := 130
	prev := infimum(compact)
	for i, r := range append(append([][]Val{}, live...), free...) {
		o, e := putRec(p, at, compact, t, r, 2+i, 0)
		os = append(os, o)
		at = e + 3
		switch {
		case i < len(live):
			chain(p, compact, prev, o)
		case i == len(live):
			put(p, 38+6, 2, uint64(o))
			put(p, 38+8, 2, 40)
		default:
			chain(p, compact, prev, o)
		}
		if i == len(live)-1 {
			chain(p, compact, o, supremum(compact))
		}
		prev = o
	}
	if len(free) > 0 {
		chain(p, compact, prev, 0)
	}
	put(p, 38+2, 2, uint64(at))
	put(p, 38+4, 2, num(p[42:44])+uint64(len(os)))
	put(p, 38+16, 2, uint64(len(live)))
	return p, os
}

// c16check reads a file of an intact page, a damaged one and another intact one.
// The statements of the intact ones, which are taken from a file without the
// damaged one, must come out before and after whatever the damaged one gives.
func c16check(t *Table, compact bool, bad []byte) {
	c16checkMode(t, compact, bad, sym.Choose("deleted", 2) == 1)
}

func c16checkMode(t *Table, compact bool, bad []byte, deleted bool) {
	zero := make([]byte, pageSize)
	a, c := c16good(1, compact, t, 10), c16good(3, compact, t, 20)
	dict := dictFile(t)
	ref, err := readTable(dict, cat(zero, a, c), t.DB, t.Name, deleted)
	sym.Assert(err == nil, "reading the intact pages failed")
	lines := strings.SplitAfter(ref, "\n")
	sym.Assert(len(lines) == 5 && lines[4] == "", "two statements from each intact page")
	out, err := readTable(dict, cat(zero, a, bad, c), t.DB, t.Name, deleted)
	_ = err // whether damage counts as an error is not the matter here
	sym.Observe("out", out)
	sym.Assert(strings.HasPrefix(out, lines[0]+lines[1]), "the rows of the page before the damaged one")
	sym.Assert(strings.HasSuffix(out, lines[2]+lines[3]), "the rows of the page behind the damaged one")
}

// c16small has few columns, for pages of which more is arbitrary.
func c16small() *Table { return idTable(varbinaryCol(20), integer(false)) }

// c16any is any 16-bit value; short: of a window only.
func c16any(name string, short bool, bases ...int) uint64 {
	if !short || sym.Thorough() {
		return uint64(sym.U16(name))
	}
	b := bases[sym.Choose(name+"-near", len(bases))]
	return uint64(sym.Range(name, b, b+7))
}

// c16pin is the same, of a window or (thorough) multiples, on paths of their own.
func c16pin(name string, bases ...int) uint64 {
	if sym.Thorough() {
		return uint64(sym.Pin(sym.Range(name, 0, 2047)*32 + sym.Choose(name+"-low", 2)))
	}
	b := bases[sym.Choose(name+"-near", len(bases))]
	return uint64(sym.Pin(sym.Range(name, b, b+15)))
}

// The next pointer of a record (live, deleted, infimum) has any value.
func C16_next() {
	t, compact := c16small(), formats()
	p, os := c16page(2, compact, t, [][]Val{c16row(t, 1), c16row(t, 2)}, [][]Val{c16row(t, 3), c16row(t, 4)})
	k := sym.Choose("record", 5)
	o := []int{os[0], infimum(compact), os[1], os[2], os[3]}[k]
	if compact {
		put(p, o-2, 2, c16any("next", k > 0, 0, 0xfff8, 0x8000, 16384-o-15, 0x10000-o, 0x10000-o+110, 20))
	} else {
		put(p, o-2, 2, c16any("next", k > 0, 0, 90, 106, 0xfff0, 16384-15, o-8, o+24))
	}
	c16checkMode(t, compact, p, k > 2)
}

// Two next pointers are damaged.
func C16_twoNext() {
	t, compact := c16table(), formats()
	p, os := c16page(2, compact, t, [][]Val{c16row(t, 1), c16row(t, 2), c16row(t, 3)}, [][]Val{c16row(t, 4), c16row(t, 5), c16row(t, 6)})
	deleted := sym.Choose("deleted", 2) == 1
	rs := append([]int{}, os[:3]...)
	if deleted {
		rs = os[3:]
	}
	for _, o := range rs[1:] {
		to := append(append([]int{}, os...), infimum(compact), supremum(compact), 0, 16370)[sym.Choose("next", len(os)+4)]
		chain(p, compact, o, to)
	}
	c16checkMode(t, compact, p, deleted)
}

// The head of the free list has any value.
func C16_free() {
	t, compact := c16small(), formats()
	p, os := c16page(2, compact, t, [][]Val{c16row(t, 1), c16row(t, 2)}, [][]Val{c16row(t, 3), c16row(t, 4)})
	put(p, 38+6, 2, c16any("free", true, 0, 90, 106, 122, 0x8000, 0xfff0, 16384-15, 16384-31, os[2]-8, os[2]+8))
	put(p, 38+8, 2, uint64(sym.U16("garbage")))
	c16checkMode(t, compact, p, true)
}

// Arbitrary numbers in the page header: type, level, numbers of records and the
// format flag, transaction id, index id.
func C16_header() {
	t, compact := c16table(), formats()
	p, _ := c16page(2, compact, t, [][]Val{c16row(t, 1), c16row(t, 2)}, [][]Val{c16row(t, 3), c16row(t, 4)})
	switch sym.Choose("field", 6) {
	case 0:
		copy(p[0:], sym.Bytes("no", 8))
	case 1:
		copy(p[8:], sym.Bytes("links", 16))
		copy(p[24:], sym.Bytes("type", 14))
	case 2:
		copy(p[38:], sym.Bytes("slots", 6))
	case 3:
		copy(p[38+10:], sym.Bytes("recs", 8))
	case 4:
		copy(p[38+18:], sym.Bytes("trx", 10))
	case 5:
		copy(p[38+28:], sym.Bytes("index", 28))
		copy(p[pageSize-8:], sym.Bytes("trailer", 8))
	}
	c16check(t, compact, p)
}

// c16mask leaves out some bits in the quick tier.
func c16mask() byte {
	if sym.Thorough() {
		return 0xff
	}
	return 0xd5
}

// Arbitrary bytes in front of a record: record header, null bits and lengths,
// respectively field ends.
func C16_extra() {
	t, compact := idTable(varbinaryCol(300), integer(false), blobCol(), bitCol(9)), formats()
	p, os := c16page(2, compact, t, [][]Val{c16row(t, 1), c16row(t, 2)}, [][]Val{c16row(t, 3), c16row(t, 4)})
	deleted := sym.Choose("deleted", 2) == 1
	o := os[0]
	if deleted {
		o = os[2]
	}
	if !sym.Thorough() {
		sym.Assume(deleted == (compact == false))
	}
	// everything in front of it but its next pointer
	n := 9
	if !compact {
		n = 6 + len(t.phys())
	}
	k := 3 + sym.Choose("at", n-2)
	p[o-k] = byte(sym.Pin(int(sym.U8("x") & c16mask())))
	if k+1 <= n && sym.Thorough() {
		p[o-k-1] = byte(sym.Pin(int(byte(sym.U8("y")&0xc7))))
	}
	c16checkMode(t, compact, p, deleted)
}

// Field ends of two bytes in the redundant format.
func C16_ends() {
	t := c16small()
	row := c16row(t, 1)
	row[1] = Val{B: make([]byte, 200)}
	p, os := c16page(2, false, t, [][]Val{row, c16row(t, 2)}, [][]Val{row, c16row(t, 4)})
	deleted := sym.Choose("deleted", 2) == 1
	o := os[0]
	if deleted {
		o = os[2]
	}
	k := sym.Choose("field", len(t.phys()))
	put(p, o-6-2*k-2, 2, c16any("end", true, 0, 16, 210, 226, 0x4000, 0x8000, 0xc000, 0x3fff, 0x7ff8, 0xfff0, 16384-o-7))
	c16checkMode(t, false, p, deleted)
}

// Lengths of two bytes in the compact format.
func C16_lengths() {
	t := idTable(varbinaryCol(300), integer(false), blobCol())
	row := c16row(t, 1)
	row[1], row[3] = Val{B: make([]byte, 200)}, Val{B: make([]byte, 130)}
	p, os := c16page(2, true, t, [][]Val{row, c16row(t, 2)}, [][]Val{row, c16row(t, 4)})
	deleted := sym.Choose("deleted", 2) == 1
	o := os[0]
	if deleted {
		o = os[2]
	}
	k := sym.Choose("at", 3)
	put(p, o-5-1-2-k, 2, c16pin("length", 0, 16, 120, 0x4000, 0x8000, 0x80f0, 0x9080, 0xc000, 0xc014, 0xbff8, 0xfff0, 0x8000+16384-o-7))
	c16checkMode(t, true, p, deleted)
}

// Arbitrary bytes for values of every fixed type.
func C16_values() {
	ks := []Col{
		integer(true), smallint(false), mediumint(false), bigint(true), yearCol(), dateCol(), timeCol(), datetimeCol(),
		timestampCol(), bitCol(5), bitCol(64), doubleCol(), floatCol(), charLatin(4), charUtf8(6), binaryCol(3), enumCol(1), varcharLatin(6), textCol(),
	}
	c := ks[sym.Choose("type", len(ks))]
	t := idTable(c)
	compact := formats()
	row, row2 := c16row(t, 1), c16row(t, 3)
	if c.MType != mDouble && c.MType != mFloat {
		n := len(row[1].B)
		if n > 2 && c.MType != mFixBinary && c.PType&0xff != tDate && !sym.Thorough() {
			n = 2
		}
		if n > 3 {
			n = 3
		}
		x := sym.Bytes("x", n)
		row[1] = Val{B: append(append([]byte{}, row[1].B[n:]...), x...)}
		row2[1] = row[1]
	} else {
		for i := range row[1].B {
			row[1].B[i] = byte(255 * sym.Choose("bits", 2))
		}
		row2[1] = row[1]
	}
	p, _ := c16page(2, compact, t, [][]Val{row, c16row(t, 2)}, [][]Val{row2, c16row(t, 4)})
	c16check(t, compact, p)
}
